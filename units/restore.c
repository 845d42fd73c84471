/*NB-UNIT
{ "src": "restore.c", "props": ["C10","C11"],
  "targets": ["initiateRestore","finishRestore","restoreFile"],
  "entries": ["p_state","p_check","p_select","p_init","p_file","p_restore","p_finish"],
  "entry_props": {"p_state": ["C10","C11"], "p_check": ["C10"], "p_select": ["C10"], "p_init": ["C10"], "p_file": ["C11"], "p_restore": ["C11"], "p_finish": ["C11"]},
  "mode": "P", "confirm": ["w_restore/n_select","w_restore/n_restore"],
  "needs": {"p_state": ["searchExistingPathState"], "p_check": ["checkAndHandleChangesRecursively","searchExistingPathState"], "p_select": ["initiateRestoreRecursively","checkAndHandleChangesRecursively","searchExistingPathState"],
            "p_init": ["initiateRestoreRecursively","checkAndHandleChangesRecursively","searchExistingPathState"], "p_restore": ["finishRestoreRecursively","searchExistingPathState"], "p_finish": ["finishRestoreRecursively"]},
  "rename_by_entry": {"p_check": ["*@checkAndHandleChangesRecursively","*@searchExistingPathState","*@applyNodeChanges"],
            "p_select": ["*@initiateRestoreRecursively","*@checkAndHandleChangesRecursively","*@searchExistingPathState","*@applyNodeChanges"],
            "p_init": ["*@initiateRestoreRecursively","*@checkAndHandleChangesRecursively","*@searchExistingPathState"],
            "p_restore": ["*@finishRestoreRecursively","*@searchExistingPathState","*@restoreFile"], "p_finish": ["*@finishRestoreRecursively"]},
  "unwind": 22, "timeout": 250, "sat": "cadical",
  "deadtypes": ["AllocatorPair"], "state": ["pos","rpos","wpos","sub","found"],
  "gen": {"PathHistory *": "nb_hist_gen()", "PathNode *": "nb_node_gen()"},
  "cands": ["nb_W >= nb_hpos($p(PathHistory *)) || !nb_match()", "G.pos == nb_pos($p(PathNode *))", "$b == G.sub", "$b == G.found", "G.sub == G.found", "$u + G.rpos == nb_size", "G.wpos == G.rpos", "!G.found || !X_null", "G.rpos <= SS", "G.found || nb_W >= nb_pos($p(PathNode *)) || !nb_hit()", "X_node->hint == BH_none || G.found"],
  "assumes": ["the system calls behind safe-wrappers.h behave as POSIX specifies: chown() may clear the set-id bits, writing may clear them too, creating or removing an entry changes the timestamp of its directory",
     "every non-directory tree node below an unchanged parent is examined by applyNodeChanges() as proved for C07",
     "no two recorded paths are the same file on the system (no symlinked directories in place of recorded ones)"]
}
*/
//@PRE
struct nb_G { nb_u64 pos, rpos, wpos; _Bool sub, found; };
//@MID
extern struct nb_G G; extern nb_u64 nb_W, nb_size;
PathHistory *nb_hist_gen(void); PathNode *nb_node_gen(void); nb_u64 nb_hpos(const PathHistory *), nb_pos(const PathNode *); _Bool nb_match(void), nb_hit(void); extern PathNode *X_node; extern _Bool X_null; extern nb_u64 SS;
//@POST
static int X_mode; _Bool nb_hit(void);
#define NB_ON_DIE OBL(nb_may_die || (X_mode == 1 && !nb_hit()), "error exit only where the property allows it")
//@include die.h
//@include sv.h
//@include alloc.h
struct nb_G G; nb_u64 nb_W, nb_size;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static _Bool sv_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
static nb_u64 X_id; static Backup bks[7]; static int hidx; static PathState X_state; _Bool X_null; static char pc[8], rc[1];
static void fill_hist(PathHistory *p, nb_u64 pos) { Backup *b = &bks[hidx++ % 7]; b->id = nd_u64(); p->backup = b; p->state.type = nd_le(3); }
//@include list.h
NB_LIST(PathHistory, HL, next, fill_hist)
PathHistory *nb_hist_gen(void) { hidx = 3; return HL_gen(); }
nb_u64 nb_hpos(const PathHistory *p) { return NB_POS(HL, p); }
_Bool nb_match(void) { return HL_w < HL_L && HL_W.backup->id >= X_id; }
static int nidx; static PathNode nb_sub; static PathHistory nb_someh; static StringView X_path; static nb_u8 rel[7];
static void fill_node(PathNode *p, nb_u64 pos) { SV_SET(p->path, &pc[nidx % 7], 1, 1); rel[nidx++ % 7] = nd_le(2); p->hint = BH_none; p->policy = nd_le(3); p->history = &nb_someh; p->subnodes = nd_bool() ? 0 : &nb_sub; }
NB_LIST(PathNode, NL, next, fill_node)
PathNode *nb_node_gen(void) { nidx = 3; return NL_gen(); }
nb_u64 nb_pos(const PathNode *p) { return NB_POS(NL, p); }
/* ---------- the state of a backup ---------- */
void p_state(void)
{
  hidx = 0; X_id = nd_u64(); PathHistory *h = NB_NEW(HL); ASSUME(HL_L > 0); nb_W = HL_w; static PathNode N; N.policy = nd_le(3); N.history = h; N.hint = nd_u32(); SV_SET(N.path, pc, 1, 1);
  const PathState *s = 0;
#ifdef NB_HAVE_searchExistingPathState
  s = searchExistingPathState(&N, X_id);
#endif
  OBL(!s || s->type != PST_non_existing, "a path that did not exist has no state");
  if(N.policy != BPOL_track) { OBL(s == (h->state.type == PST_non_existing ? 0 : &h->state), "latest state of paths without history"); COVER("copy"); return; }
  if(s) {
    nb_u64 k = ~0ul; if(s == &HL_W.state) k = HL_w; else if(s == &HL_F.state) k = 0; else if(s == &HL_S.state) k = 1; else if(s == &HL_O0.state) k = HL_p; else if(s == &HL_O1.state) k = HL_p + 1; else if(s == &HL_O2.state) k = HL_p + 2;
    OBL(k < HL_L, "state of the path"); OBL(NB_AT(HL, k)->backup->id >= X_id, "not newer than the backup"); if(HL_w < k) OBL(HL_W.backup->id < X_id, "newest such state"); COVER("state"); if(k > 5) COVER("old state"); }
  else { if(HL_w < HL_L && HL_W.state.type != PST_non_existing && nb_match()) { /* only a newer fitting state may hide it */ OBL(HL_w > 0, "existing state is found"); }
    COVER("not existing"); }
}
/* ---------- differences of one path and everything below ---------- */
static PathNode N; PathNode *X_node = &N; static struct stat T; static _Bool X_exists, X_could, w_asked, w_applied; static unsigned X_apply; static AllocatorPair AP; static struct Allocator a1, a2; static _Bool X_subnull[7]; static _Bool w_child; static PathState X_sub;
static void NBC_applyNodeChanges(AllocatorPair *ap, PathNode *n, PathState *s, struct stat st)
{
  OBL(ap == &AP && n == X_node && s != &X_state && s->type == X_state.type && s->uid == X_state.uid && st.st_mode == T.st_mode && st.st_mtime == T.st_mtime && !w_applied, "recorded state is compared with the system"); OBL(s->metadata.directory_info.modification_time == X_state.metadata.directory_info.modification_time, "recorded state is compared");
  MAYDIE; w_applied = 1; backupHintSet(n->hint, BH_none); n->hint |= X_apply; s->uid ^= 1; s->metadata.directory_info.modification_time ^= 1; s->metadata.file_info.size ^= 1;
}
bool sPathExists(StringView p) { OBL(sv_is(p, X_node->path), "the node's path"); MAYDIE; w_asked = 1; return X_exists; }
static struct stat st(StringView p, _Bool l) { OBL(sv_is(p, X_node->path) && X_exists && X_could, "status of an existing path"); OBL(l == (X_state.type == PST_symlink), "symlinks are looked at only if a symlink is recorded"); MAYDIE; return T; }
struct stat sStat(StringView p) { return st(p, 0); }
struct stat sLStat(StringView p) { return st(p, 1); }
static unsigned kind(void) { mode_t t = T.st_mode & 0170000; return t == 0100000 ? PST_regular_file : t == 0120000 ? PST_symlink : t == 0040000 ? PST_directory : 0; }
static unsigned expected(void)
{
  if(!X_could || !X_exists) return BH_added; unsigned k = kind(), s = X_state.type; if(k == s) return X_apply;
  if(s == PST_regular_file) return k == PST_symlink ? BH_symlink_to_regular : k == PST_directory ? BH_directory_to_regular : BH_other_to_regular;
  if(s == PST_symlink) return k == PST_regular_file ? BH_regular_to_symlink : k == PST_directory ? BH_directory_to_symlink : BH_other_to_symlink;
  return k == PST_regular_file ? BH_regular_to_directory : k == PST_symlink ? BH_symlink_to_directory : BH_other_to_directory;
}
static _Bool recreated(unsigned h) { return h >= BH_added && h <= BH_other_to_directory; }
static int relof(StringView p);
/* 0: list of subnodes, 1: list that is searched */
static const PathState *NBC_searchExistingPathState(const PathNode *n, const size_t id)
{
  OBL(id == X_id, "the requested backup");
  if(n == &N) return X_null ? 0 : &X_state;
  if(X_mode == 1) { OBL(n && relof(n->path) != 2 && !G.found, "only the path and its parents are looked at"); X_node = (PathNode *)n; nb_may_die = X_null || (relof(n->path) == 1 && X_state.type != PST_directory); return X_null ? 0 : &X_state; }
  OBL(n == NB_AT(NL, G.pos) && !G.sub, "every subnode is looked at"); G.sub = 1; w_child = nd_bool(); if(!w_child) { G.pos++; G.sub = 0; return 0; } return &X_sub;
}
static _Bool X_top; static nb_u64 w_calls;
static void NBC_checkAndHandleChangesRecursively(AllocatorPair *ap, PathNode *n, const PathState *s, const size_t id, bool could)
{
  OBL(id == X_id, "the requested backup");
  if(X_mode == 0) { OBL(ap == &AP && n == NB_AT(NL, G.pos) && G.sub && s == &X_sub, "existing subnodes are examined"); OBL(could == (X_could && !recreated(N.hint & 0x1FF)), "subnodes of a recreated directory do not exist"); G.pos++; G.sub = 0; }
  else if(X_mode == 1) { OBL(ap == &AP && !G.found && n == X_node && relof(n->path) == 0 && s == &X_state && could == X_could, "the requested path is examined"); G.found = 1; G.wpos = 1; }
  else { OBL(n == NB_AT(NL, G.pos) && G.sub && s == &X_sub && could, "every existing path is examined"); G.pos++; G.sub = 0; }
}
static void init_node(void)
{
  SV_SET(N.path, &pc[7], 1, 1); N.policy = nd_le(3); N.history = &nb_someh; unsigned pb = nd_bool() ? BH_policy_changed : 0; N.hint = BH_none; X_id = nd_u64();
  X_state.type = nd_range(1, 3); X_state.uid = nd_u32(); X_state.gid = nd_u32(); X_state.metadata.file_info.size = nd_u64(); X_state.metadata.directory_info.permission_bits = nd_u32(); X_state.metadata.directory_info.modification_time = nd_u64();
  T.st_mode = nd_u32(); T.st_mtime = nd_u64(); T.st_uid = nd_u32(); X_exists = nd_bool(); X_could = nd_bool(); X_apply = (nd_u32() & 0x1F) << 4; AP.a = &a1; AP.reusable_buffer = &a2; w_asked = w_applied = 0; X_null = 0;
}
void p_check(void)
{
  X_mode = 0; nidx = 0; init_node(); N.subnodes = NB_NEW(NL); G.pos = 0; G.sub = G.found = 0; nb_W = NL_w;
  PathState o; o.type = X_state.type; o.uid = X_state.uid; o.metadata.directory_info = X_state.metadata.directory_info;
#ifdef NB_HAVE_checkAndHandleChangesRecursively
  checkAndHandleChangesRecursively(&AP, &N, &X_state, X_id, X_could);
#endif
  OBL((N.hint & ~BH_fresh_hash) == (expected() & ~BH_fresh_hash), "marked if and only if the path differs"); COVER("examined");
  OBL(X_state.type == o.type && X_state.uid == o.uid && X_state.metadata.directory_info.modification_time == o.metadata.directory_info.modification_time, "recorded state is not changed");
  OBL(G.pos == (o.type == PST_directory ? NL_L : 0), "everything below a directory is examined"); if(G.pos > 4) COVER("many subnodes"); if(N.hint == 0) COVER("no difference"); if(recreated(N.hint & 0x1FF)) COVER("recreated");
}
/* ---------- the way to the requested path ---------- */
/* rel: 0 the node is the requested path, 1 it is one of its parents, 2 neither; here all nodes before the first hit are 2 */
static int relof(StringView p) { for(int i = 0; i < 7; i++) if(p.content == &pc[i]) return rel[i]; return 2; }
bool strIsEqual(StringView a, StringView b) { OBL(sv_is(a, X_path) != sv_is(b, X_path), "compared with the requested path"); return relof(sv_is(a, X_path) ? b : a) == 0; }
bool strIsParentPath(StringView a, StringView b) { OBL(sv_is(b, X_path), "parent of the requested path"); return relof(a) == 1; }
_Bool nb_hit(void) { return NL_w < NL_L && relof(NL_W.path) != 2; }
static PathNode *hitnode; static _Bool w_rec;
static void NBC_initiateRestoreRecursively(AllocatorPair *ap, PathNode *l, const size_t id, StringView p, const bool could)
{
  if(X_mode == 2) { OBL(l == NB_AT(NL, 0) && id == X_id && sv_is(p, X_path) && could && !w_rec && G.pos == 0, "the requested path is searched"); w_rec = 1; return; }
  OBL(ap == &AP && !G.found && relof(X_node->path) == 1 && l == X_node->subnodes && id == X_id && sv_is(p, X_path), "the search continues below the parent"); OBL(!X_null && X_state.type == PST_directory, "the parent was a directory");
  OBL((X_node->hint & ~BH_fresh_hash) == (expected() & ~BH_fresh_hash), "parent is marked if and only if it differs"); OBL(could == (X_could && !recreated(expected())), "subnodes of a recreated directory do not exist"); G.found = 1; G.wpos = 2;
}
void p_select(void)
{
  X_mode = 1; nidx = 0; init_node(); X_null = nd_bool(); SV_SET(X_path, rc, 1, 1); PathNode *l = NB_NEW(NL); nb_W = NL_w; G.pos = G.wpos = 0; G.sub = G.found = 0;
#ifdef NB_HAVE_initiateRestoreRecursively
  initiateRestoreRecursively(&AP, l, X_id, X_path, X_could);
#endif
  OBL(G.found, "a path which is not recorded is an error"); OBL(!X_null, "a path which did not exist then is an error"); COVER("selected"); if(G.wpos == 2) COVER("parent"); if(NL_w > 3) COVER("later");
}

bool strIsEmpty(StringView v) { return v.length == 0; }
void p_init(void)
{
  X_mode = 2; nidx = 0; X_id = nd_u64(); static Metadata M; static CR_Region r; M.r = &r; M.paths = NB_NEW(NL); G.pos = 0; G.sub = G.found = 0; w_rec = 0; nb_W = NL_w; SV_SET(X_path, rc, nd_bool(), 1);
  initiateRestore(&M, X_id, X_path);
  if(X_path.length == 0) { OBL(G.pos == NL_L && !w_rec, "all existing paths are restored"); COVER("everything"); if(NL_L > 3) COVER("many"); } else { OBL(w_rec && G.pos == 0, "the requested path is searched"); COVER("one path"); }
}
/* ---------- content of a file ---------- */
static nb_u64 nb_i; static nb_u8 nb_c; static RegularFileInfo X_info; static StringView X_repo; static _Bool w_ropen, w_wopen, w_done; static struct RepoReader { int x; } rr; static struct FileStream { int x; } fs; nb_u64 SS;
RepoReader *repoReaderOpenFile(StringView r, StringView p, const RegularFileInfo *f) { OBL(sv_is(r, X_repo) && sv_is(p, X_path) && f == &X_info && !w_ropen, "the stored file is opened"); MAYDIE; w_ropen = 1; G.rpos = 0; return &rr; }
void repoReaderRead(void *d, size_t n, RepoReader *x) { OBL(x == &rr && w_ropen && __CPROVER_w_ok(d, n), "read"); if(n > SS - G.rpos) { nb_may_die = 1; die(""); } MAYDIE; if(nb_i >= G.rpos && nb_i - G.rpos < n) ((nb_u8 *)d)[nb_i - G.rpos] = nb_c; G.rpos += n; }
void repoReaderClose(RepoReader *x) { OBL(x == &rr && w_ropen, "open reader"); MAYDIE; w_ropen = 0; }
FileStream *sFopenWrite(StringView p) { OBL(sv_is(p, X_path) && !w_wopen && !w_done, "the restored file is opened"); MAYDIE; w_wopen = 1; G.wpos = 0; return &fs; }
void sFwrite(const void *d, size_t n, FileStream *s) { OBL(s == &fs && w_wopen && (n == 0 || __CPROVER_r_ok(d, n)), "write"); MAYDIE; if(nb_i >= G.wpos && nb_i - G.wpos < n) OBL(((const nb_u8 *)d)[nb_i - G.wpos] == nb_c, "bytes in order"); OBL(G.wpos + n <= X_info.size, "not too long"); G.wpos += n; }
void sFclose(FileStream *s) { OBL(s == &fs && w_wopen, "open stream"); MAYDIE; w_wopen = 0; w_done = 1; }
void p_file(void)
{
  SV_SET(X_path, pc, 1, 1); SV_SET(X_repo, rc, 1, 1); X_info.size = nd_bool() ? nd_le(20) : nd_le(1ul << 62); nb_size = X_info.size; nb_i = nd_u64(); nb_c = nd_u8(); SS = nd_le(1ul << 62); for(int i = 0; i < 20; i++) X_info.hash[i] = nd_u8(); X_info.slot = nd_u8();
  if(X_info.size <= 20 && nb_i < X_info.size) ASSUME(X_info.hash[nb_i] == nb_c); w_ropen = w_wopen = w_done = 0; G.rpos = G.wpos = 0;
  restoreFile(X_path, &X_info, X_repo);
  OBL(w_done && !w_ropen && !w_wopen, "streams are closed"); OBL(G.wpos == X_info.size, "the whole content is restored"); if(X_info.size > 20) { OBL(SS >= X_info.size, "truncated stored file is an error"); COVER("stored"); } else COVER("inline");
  if(X_info.size == 0) COVER("empty");
}
/* ---------- one path and everything below ---------- */
static struct { unsigned type; uid_t uid; gid_t gid; mode_t mode; time_t mtime; _Bool content; } F; /* the path on the system; type 0: nothing, 9: something else */
static _Bool touched; static unsigned h0;
static void chk(StringView p) { OBL(sv_is(p, N.path), "only the node's path is modified"); OBL(F.type != 0, "existing path"); MAYDIE; touched = 1; }
void sRemove(StringView p) { chk(p); OBL(F.type != PST_directory, "only obstacles are removed"); F.type = 0; }
void sRemoveRecursively(StringView p) { chk(p); OBL(F.type == PST_directory && X_state.type != PST_directory, "only obstacles are removed"); F.type = 0; }
void sMkdir(StringView p) { OBL(sv_is(p, N.path) && F.type == 0, "directory is created"); MAYDIE; F.type = PST_directory; F.uid = nd_u32(); F.gid = nd_u32(); F.mode = nd_u32(); F.mtime = nd_u64(); touched = 1; }
void sSymlink(StringView t, StringView p) { OBL(sv_is(p, N.path) && F.type == 0, "symlink is created"); OBL(sv_is(t, X_state.metadata.symlink_target), "recorded target"); MAYDIE; F.type = PST_symlink; F.content = 1; F.uid = nd_u32(); F.gid = nd_u32(); touched = 1; }
void sChown(StringView p, uid_t u, gid_t g) { chk(p); OBL(F.type != PST_symlink, "not through a symlink"); F.uid = u; F.gid = g; if(F.type == PST_regular_file && nd_bool()) F.mode &= ~06000; }
void sLChown(StringView p, uid_t u, gid_t g) { chk(p); F.uid = u; F.gid = g; if(F.type == PST_regular_file && nd_bool()) F.mode &= ~06000; }
void sChmod(StringView p, mode_t m) { chk(p); OBL(F.type != PST_symlink, "not through a symlink"); F.mode = m; }
void sUtime(StringView p, time_t t) { OBL(sv_is(p, N.path) && F.type != 0 && F.type != PST_symlink, "timestamp of the node's path"); MAYDIE; touched = 1; F.mtime = t; G.sub = 0; }
static void NBC_restoreFile(StringView p, const RegularFileInfo *i, StringView r)
{
  OBL(sv_is(p, N.path) && i == &X_state.metadata.file_info && sv_is(r, X_repo), "recorded content is restored"); OBL(F.type == 0 || F.type == PST_regular_file, "no obstacle"); MAYDIE;
  if(F.type == 0) { F.type = PST_regular_file; F.uid = nd_u32(); F.gid = nd_u32(); F.mode = nd_u32(); } else if(nd_bool()) F.mode &= ~06000; F.content = 1; F.mtime = nd_u64(); touched = 1;
}
static bool NBC_finishRestoreRecursively(const PathNode *n, const size_t id, StringView r)
{
  OBL(n == NB_AT(NL, G.pos) && id == X_id && sv_is(r, X_repo), "every subnode is restored"); G.pos++; 
  if(X_mode == 3) return nd_bool();
  OBL(F.type == PST_directory || !(recreated(h0) || N.policy != BPOL_none), "subnodes are restored into their directory"); _Bool c = nd_bool(); if(c) G.sub = G.found = 1; return c;
}
void p_restore(void)
{
  X_mode = 0; nidx = 0; init_node(); SV_SET(X_repo, rc, 1, 1); X_null = nd_bool(); if(X_state.type == PST_symlink) SV_SET(X_state.metadata.symlink_target, rc, nd_u64(), 1);
  N.subnodes = NB_NEW(NL); G.pos = 0; G.sub = G.found = 0; nb_W = NL_w; touched = 0; const PathState *s = &X_state;
  if(s->type == PST_regular_file) { X_state.metadata.file_info.permission_bits = nd_u32(); X_state.metadata.file_info.modification_time = nd_u64(); }
  mode_t perm = s->type == PST_regular_file ? s->metadata.file_info.permission_bits : s->metadata.directory_info.permission_bits; time_t mt = s->type == PST_regular_file ? s->metadata.file_info.modification_time : s->metadata.directory_info.modification_time;
  /* the hint says how the system differs from the state (p_check, C07) */
  h0 = nd_bool() ? 0 : nd_range(2, 13); ASSUME(h0 != BH_removed && h0 != BH_not_part_of_repository); unsigned d = nd_u32() & 0x1F0; if(!(d & BH_content_changed)) d &= ~BH_fresh_hash;
  if(h0 == 0) {
    F.type = s->type; F.uid = s->uid; F.gid = s->gid; F.mode = perm; F.mtime = mt; F.content = 1;
    if(d & BH_owner_changed) { F.uid = nd_u32(); F.gid = nd_u32(); }
    if(s->type == PST_symlink) d &= BH_owner_changed | BH_content_changed; if(s->type == PST_directory) d &= ~(BH_content_changed | BH_fresh_hash);
    if(d & BH_permissions_changed) F.mode = nd_u32(); if(d & BH_timestamp_changed) F.mtime = nd_u64(); if(d & BH_content_changed) F.content = 0; N.hint = d; }
  else {
    N.hint = h0; F.type = h0 == BH_added ? 0 : (h0 == BH_regular_to_symlink || h0 == BH_regular_to_directory) ? PST_regular_file : (h0 == BH_symlink_to_regular || h0 == BH_symlink_to_directory) ? PST_symlink : (h0 == BH_directory_to_regular || h0 == BH_directory_to_symlink) ? PST_directory : 9;
    unsigned to = (h0 == BH_regular_to_symlink || h0 == BH_directory_to_symlink || h0 == BH_other_to_symlink) ? PST_symlink : (h0 == BH_regular_to_directory || h0 == BH_symlink_to_directory || h0 == BH_other_to_directory) ? PST_directory : PST_regular_file; ASSUME(h0 == BH_added || s->type == to); F.content = 0; F.uid = nd_u32(); F.gid = nd_u32(); F.mode = nd_u32(); F.mtime = nd_u64(); }
  _Bool ret = 0;
#ifdef NB_HAVE_finishRestoreRecursively
  ret = finishRestoreRecursively(&N, X_id, X_repo);
#endif
  if(X_null) { OBL(!touched && G.pos == 0 && !ret, "a path that did not exist then is not touched"); COVER("not existing"); return; }
  _Bool re = recreated(h0);
  OBL(G.pos == (s->type == PST_directory ? NL_L : 0), "everything below a directory is restored");
  if(N.policy == BPOL_none && !re) { OBL(!touched && !ret, "existing implicit parents are not touched"); COVER("implicit parent"); return; }
  if(h0 == 0 && d == 0 && !G.found) { OBL(!touched, "a path without differences is not touched"); COVER("unchanged"); }
  if(re || (s->type == PST_symlink && (d & BH_content_changed))) OBL(ret, "the parent's timestamp is affected");
  OBL(F.type == s->type, "type"); OBL(F.uid == s->uid && F.gid == s->gid, "owner");
  if(s->type == PST_symlink || s->type == PST_regular_file) OBL(F.content, "content");
  if(s->type != PST_symlink) { OBL(F.mode == perm, "permissions"); OBL(F.mtime == mt, "timestamp"); }
  OBL(!G.sub, "the timestamp of a directory is set after its content is in place"); if(G.found) COVER("content restored");
  COVER("restored"); if(re) COVER("recreated"); if(ret) COVER("parent affected");
}
void p_finish(void)
{
  X_mode = 3; nidx = 0; X_id = nd_u64(); SV_SET(X_repo, rc, 1, 1); static Metadata M; M.paths = NB_NEW(NL); G.pos = 0; G.sub = G.found = 0;
  finishRestore(&M, X_id, X_repo); OBL(G.pos == NL_L, "every path is restored"); COVER("all"); if(NL_L > 3) COVER("many");
}
