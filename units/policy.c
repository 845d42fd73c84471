/*NB-UNIT
{ "src": "backup.c", "props": ["C08","C09"],
  "targets": ["initiateBackup"],
  "entries": ["p_decr","p_wipe","p_wiperec","p_mark","p_policy","p_removed","p_found","p_visit","p_missing","p_match","p_ignore","p_init"],
  "entry_props": {"p_mark": ["C09", "C08"], "p_removed": ["C09"], "p_missing": ["C09"], "p_match": ["C09"], "p_ignore": ["C09"], "p_found": ["C08", "C07"]},
  "mode": "P", "confirm": ["w_backup/n_found","w_backup/n_missing"],
  "needs": {"p_decr": ["decrementRefCounts"], "p_wipe": ["prepareNodeForWiping","decrementRefCounts"], "p_wiperec": ["prepareNodeForWiping","prepareNodeForWipingRecursively"], "p_mark": ["markAsRemovedRecursively"],
            "p_policy": ["handlePolicyChanges","decrementRefCounts","prepareNodeForWipingRecursively"], "p_removed": ["handleRemovedPath","handlePolicyChanges","prepareNodeForWiping","prepareNodeForWipingRecursively","markAsRemovedRecursively"],
            "p_found": ["handleFoundNode","handlePolicyChanges"], "p_visit": ["initiateMetadataRecursively","handleFoundNode","markAsRemovedRecursively","prepareNodeForWiping","prepareNodeForWipingRecursively","handleNotFoundSubnodes"],
            "p_missing": ["handleNotFoundSubnodes","handleRemovedPath","prepareNodeForWipingRecursively","matchesSearchSubnodes","matchesIgnoreList"], "p_match": ["matchesSearchSubnodes"], "p_ignore": ["matchesIgnoreList"], "p_init": ["initiateMetadataRecursively","handleNotFoundSubnodes"]},
  "rename_by_entry": {"p_wipe": ["*@decrementRefCounts"], "p_wiperec": ["*@prepareNodeForWiping","prepareNodeForWipingRecursively@prepareNodeForWipingRecursively"], "p_mark": ["markAsRemovedRecursively@markAsRemovedRecursively"],
            "p_policy": ["*@decrementRefCounts","*@prepareNodeForWipingRecursively"], "p_removed": ["*@handlePolicyChanges","*@prepareNodeForWiping","*@prepareNodeForWipingRecursively","*@markAsRemovedRecursively"],
            "p_found": ["*@handlePolicyChanges"], "p_visit": ["initiateMetadataRecursively@initiateMetadataRecursively","*@handleFoundNode","*@markAsRemovedRecursively","*@prepareNodeForWiping","*@prepareNodeForWipingRecursively","*@handleNotFoundSubnodes"],
            "p_missing": ["*@handleRemovedPath","*@prepareNodeForWipingRecursively","*@matchesSearchSubnodes","*@matchesIgnoreList"], "p_init": ["*@initiateMetadataRecursively","*@handleNotFoundSubnodes"]},
  "unwind": 12, "timeout": 250, "sat": "cadical",
  "deadtypes": ["AllocatorPair"], "state": ["pos","done","hit","self"], "lv": [["nb_bW.ref_count","size_t"],["nb_bO.ref_count","size_t"]],
  "gen": {"PathHistory *": "nb_hist_gen()", "PathNode *": "nb_node_gen()", "SearchNode *": "nb_sn_gen()", "const RegexList *": "nb_rx_gen()", "RegexList *": "(RegexList *)nb_rx_gen()"},
  "cands": ["nb_decr(nb_hpos($p(PathHistory *)))", "G.pos == nb_pos($p(PathNode *))", "G.pos <= nb_pos($p(PathNode *))", "nb_pos($p(PathNode *)) <= nb_NL()", "nb_W >= nb_pos($p(PathNode *)) || G.hit || !nb_todo()", "!G.hit || nb_todo()", "nb_W >= nb_pos($p(PathNode *)) || nb_wiped()",
            "nb_W >= nb_spos($p(SearchNode *)) || !nb_smatch()", "nb_W >= nb_rpos($p(const RegexList *)) || !nb_rmatch()", "nb_W >= nb_rpos($p(RegexList *)) || !nb_rmatch()", "!G.done", "G.self"],
  "assumes": ["a recorded history never consists of a single non-existing state, and only tracked paths have one (guaranteed by what is written)", "applyNodeChanges() as proved for C07", "the string table behaves like a map (C16)"]
}
*/
//@PRE
struct nb_G { nb_u64 pos; _Bool done, hit, self; };
//@MID
extern struct nb_G G; extern nb_u64 nb_W; extern Backup nb_bW, nb_bO; PathHistory *nb_hist_gen(void); PathNode *nb_node_gen(void); SearchNode *nb_sn_gen(void); const RegexList *nb_rx_gen(void);
nb_u64 nb_hpos(const PathHistory *), nb_pos(const PathNode *), nb_NL(void), nb_spos(const SearchNode *), nb_rpos(const RegexList *); _Bool nb_decr(nb_u64), nb_todo(void), nb_wiped(void), nb_smatch(void), nb_rmatch(void);
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_W; Backup nb_bW, nb_bO;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static _Bool sv_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
static int X_mode; static char pc[9], rc[1]; static nb_u64 r_bW, r_bO; static Metadata M; static struct CR_Region { int x; } reg;
//@include list.h
/* the watched state belongs to one backup, all others to another one */
static void fill_h(PathHistory *p, nb_u64 pos) { p->backup = pos == nb_W ? &nb_bW : &nb_bO; p->state.type = nd_le(3); }
NB_LIST(PathHistory, HL, next, fill_h)
PathHistory *nb_hist_gen(void) { return HL_gen(); }
nb_u64 nb_hpos(const PathHistory *p) { return NB_POS(HL, p); }
_Bool nb_decr(nb_u64 done) { return done <= HL_L && nb_bW.ref_count == r_bW - (done > HL_w) && nb_bO.ref_count == r_bO - (done - (done > HL_w)); }
static _Bool X_allw; static int nidx; static PathNode nb_sub, N; static PathHistory nb_someh; static nb_u8 kind[8]; static SearchNode sn0;
/* kind: bit 0 found by a search node, bit 1 ignored */
static void fill_node(PathNode *p, nb_u64 pos) { SV_SET(p->path, &pc[nidx % 7], 1, 1); kind[nidx++ % 7] = nd_le(3); p->hint = X_allw ? BH_not_part_of_repository : nd_bool() ? BH_none : nd_bool() ? BH_not_part_of_repository | (nd_bool() ? BH_policy_changed : 0) : nd_range(1, 0x7FF); p->policy = nd_le(3); p->history = &nb_someh; p->subnodes = nd_bool() ? 0 : &nb_sub; }
NB_LIST(PathNode, NL, next, fill_node)
PathNode *nb_node_gen(void) { nidx = 3; return NL_gen(); }
nb_u64 nb_pos(const PathNode *p) { return NB_POS(NL, p); } nb_u64 nb_NL(void) { return NL_L; }
static int knd(StringView p) { for(int i = 0; i < 7; i++) if(p.content == &pc[i]) return kind[i]; return 0; }
_Bool nb_wiped(void) { return NL_w < NL_L && (NL_W.hint & 0x1FF) == BH_not_part_of_repository; }
_Bool nb_todo(void) { return NL_w < NL_L && NL_W.hint == BH_none; }
size_t sSizeAdd(size_t a, size_t b) { if(a > ~0ul - b) { nb_may_die = 1; die(""); } return a + b; }
static PathHistory newh; static PathNode newn; static _Bool w_newh, w_newn;
void *CR_RegionAlloc(CR_Region *r, size_t n) { OBL(r == &reg, "memory of the metadata"); MAYDIE; if(n == sizeof newh) { OBL(!w_newh, "one new state"); w_newh = 1; return &newh; } OBL(n == sizeof newn && !w_newn, "one new node"); w_newn = 1; return &newn; }
static void meta(void) { M.r = &reg; M.total_path_count = nd_u64(); ASSUME(M.total_path_count > 0); M.current_backup.ref_count = nd_u64(); w_newh = w_newn = 0; nb_bW.ref_count = r_bW = nd_u64(); nb_bO.ref_count = r_bO = nd_u64(); newh.next = (PathHistory *)8; newh.backup = 0; newh.state.type = PST_regular_file; newn.hint = nd_u32(); newn.next = (PathNode *)8; newn.subnodes = (PathNode *)8; }
static PathHistory *hist(void) { nb_W = nd_u64(); PathHistory *h; HL_init(nd_le(1ul << 40)); ASSUME(HL_L > 0 && HL_w == nb_W); return NB_AT(HL, 0); }
static void node(void) { SV_SET(N.path, &pc[7], 1, 1); N.policy = nd_le(3); N.hint = nd_bool() ? BH_policy_changed : 0; nidx = 0; N.subnodes = NB_NEW(NL); G.pos = 0; G.done = G.hit = G.self = 0; N.next = &nb_sub; }
/* ---------- reference counts ---------- */
void p_decr(void)
{
  meta(); nb_u64 L = nd_le(1ul << 40); PathHistory *h = 0; if(nd_bool()) h = hist(); else { HL_init(0); }
#ifdef NB_HAVE_decrementRefCounts
  decrementRefCounts(h);
#endif
  if(!h) { OBL(nb_bW.ref_count == r_bW && nb_bO.ref_count == r_bO, "nothing to release"); COVER("empty"); return; }
  OBL(nb_bW.ref_count == r_bW - 1 && nb_bO.ref_count == r_bO - (HL_L - 1), "each state releases its backup once"); COVER("released"); if(HL_L > 5) COVER("many");
}
static PathHistory *X_dec; static _Bool w_dec;
static void NBC_decrementRefCounts(PathHistory *h) { OBL(!w_dec && h == X_dec, "exactly the dropped states are released"); w_dec = 1; if(X_mode == 1) OBL(h == 0 || h == NB_AT(HL, nb_hpos(h)), "states are still intact"); }
/* ---------- removing paths from the backup ---------- */
void p_wipe(void)
{
  meta(); node(); X_mode = 0; N.history = X_dec = &nb_someh; w_dec = 0; unsigned pb = N.hint; unsigned h = nd_range(0, 0x1FF); N.hint |= h; nb_u64 t = M.total_path_count;
#ifdef NB_HAVE_prepareNodeForWiping
  prepareNodeForWiping(&M, &N);
#endif
  OBL(N.hint == (pb | BH_not_part_of_repository), "marked as no longer part of the backup"); OBL(N.history == &nb_someh, "history is kept until it is written");
  if(h == BH_not_part_of_repository) { OBL(!w_dec && M.total_path_count == t, "released only once"); COVER("already"); } else { OBL(w_dec && M.total_path_count == t - 1, "path and states are released"); COVER("wiped"); }
}
static _Bool X_self, X_d2x, w_nf; static BackupPolicy X_pol; static PathNode *cur(void); static unsigned rt(void);
static void NBC_prepareNodeForWiping(Metadata *m, PathNode *n)
{
  OBL(m == &M && n == (X_mode == 5 ? cur() : &N) && !G.self, "the path itself"); G.self = 1;
  if(X_mode == 5) { OBL(X_pol == BPOL_none && (w_nf || G.pos == NL_L), "only unneeded implicit parents, last"); OBL(NL_L == 0 || nb_wiped(), "no path below is needed"); }
  if(X_mode != 1) n->hint = BH_not_part_of_repository;
}
static void NBC_prepareNodeForWipingRecursively(Metadata *m, PathNode *n)
{
  OBL(m == &M, "metadata");
  if(X_mode == 3) { OBL(n == &N && G.done && !G.hit && !G.self, "the path and everything below"); G.hit = 1; return; }
  if(X_mode == 4) { OBL(NB_POS(NL, n) < NL_L && NB_POS(NL, n) >= G.pos, "each subnode once"); OBL(n->hint == BH_none && !(knd(n->path) & 1) && (X_self || (knd(n->path) & 2)), "only ignored or no longer configured paths are dropped"); G.pos = NB_POS(NL, n) + 1; if(n == &NL_W) G.hit = 1; return; }
  if(X_mode == 5) OBL(X_d2x && (X_pol == BPOL_copy || X_pol == BPOL_mirror) && !w_nf, "only where type and policy demand it");
  OBL(n == NB_AT(NL, G.pos), "everything below, once"); G.pos++;
}
void p_wiperec(void)
{
  meta(); node(); X_mode = 1;
#ifdef NB_HAVE_prepareNodeForWipingRecursively
  prepareNodeForWipingRecursively(&M, &N);
#endif
  OBL(G.self && G.pos == NL_L, "the path and everything below"); COVER("wiped"); if(NL_L > 4) COVER("many");
}
/* ---------- missing paths ---------- */
static _Bool X_ext;
static void NBC_markAsRemovedRecursively(Metadata *m, PathNode *n, bool ext)
{
  OBL(m == &M, "metadata");
  if(X_mode == 3) { OBL(n == &N && G.done && !G.hit && !G.self && ext, "the path is marked"); G.hit = 1; return; }
  OBL(n == NB_AT(NL, G.pos), "everything below, once"); OBL(ext == X_ext, "histories are extended only below tracked paths"); G.pos++;
  if(X_mode == 5) OBL((X_d2x ? X_pol == BPOL_none || X_pol == BPOL_track : X_pol == BPOL_track && rt() == PST_regular_file) && !w_nf, "only where type and policy demand it");
}
void p_mark(void)
{
  meta(); node(); X_mode = 2; PathHistory *h = N.history = hist(); ASSUME(h->state.type != PST_non_existing || HL_L > 1); unsigned t = h->state.type, pb = N.hint, hn = nd_bool() ? BH_not_part_of_repository : 0; N.hint |= hn; _Bool ext = nd_bool(); nb_u64 c = M.current_backup.ref_count; PathHistory *h2 = h->next;
  X_ext = ext && (t == PST_non_existing || N.policy == BPOL_track);
#ifdef NB_HAVE_markAsRemovedRecursively
  markAsRemovedRecursively(&M, &N, ext);
#endif
  OBL(h->next == h2 && h->state.type == t && nb_bW.ref_count == r_bW && nb_bO.ref_count == r_bO, "older history is intact");
  if(hn) { OBL(N.history == h && G.pos == 0 && N.hint == (pb | hn) && M.current_backup.ref_count == c, "dropped paths stay dropped"); COVER("dropped"); return; }
  OBL(G.pos == NL_L, "everything below");
  if(t == PST_non_existing) { OBL(N.history == h && (N.hint & 0x1FF) == BH_unchanged && M.current_backup.ref_count == c, "already removed paths are unchanged"); COVER("already removed"); return; }
  OBL(N.hint == (pb | BH_removed), "marked as removed");
  if(ext && N.policy == BPOL_track) { OBL(N.history == &newh && newh.next == h && newh.state.type == PST_non_existing && newh.backup == &M.current_backup && M.current_backup.ref_count == c + 1, "one non-existing state in front"); COVER("tracked"); }
  else { OBL(N.history == h && M.current_backup.ref_count == c, "nothing is added"); COVER("kept"); }
  if(NL_L > 4) COVER("many subnodes");
}
/* ---------- changes of the policy ---------- */
void p_policy(void)
{
  meta(); node(); N.hint = 0; X_mode = 1; PathHistory *h = N.history = hist(); _Bool gone = h->state.type == PST_non_existing; ASSUME(!gone || (HL_L > 1 && N.policy == BPOL_track && NB_AT(HL, 1)->state.type != PST_non_existing)); unsigned from = gone; X_dec = NB_AT(HL, from + 1); w_dec = 0;
  BackupPolicy p = nd_le(3), o = N.policy; PathHistory *h2 = h->next, *keep = NB_AT(HL, from); _Bool multi = HL_L > from + 1; unsigned t = keep->state.type; Backup *hb = h->backup; nb_u64 hbr = hb->ref_count, t0 = M.total_path_count;
#ifdef NB_HAVE_handlePolicyChanges
  handlePolicyChanges(&M, &N, p);
#endif
  OBL(N.policy == p && M.total_path_count == t0 && !w_newh, "policy of the configuration");
  if(o == p || o != BPOL_track) { OBL(N.history == h && h->next == h2 && !w_dec && G.pos == 0 && nb_bW.ref_count == r_bW && nb_bO.ref_count == r_bO, "history is kept"); OBL(N.hint == (o == p ? 0 : BH_policy_changed), "policy change is noted"); COVER("kept"); return; }
  OBL(N.history == keep && keep->next == 0 && keep->state.type == t, "history is reduced to the latest existing state"); OBL(w_dec == multi, "dropped states are released"); OBL(N.hint == (BH_policy_changed | (multi ? BH_loses_history : 0)), "loss of history is noted");
  OBL(hb->ref_count == hbr - gone && (hb == &nb_bW || nb_bW.ref_count == r_bW) && (hb == &nb_bO || nb_bO.ref_count == r_bO), "dropped non-existing state is released");
  OBL(G.pos == (t == PST_directory ? 0 : NL_L), "former subnodes of a path which is no directory are dropped"); COVER("reduced"); if(gone) COVER("was removed"); if(multi) COVER("loses history"); if(G.pos > 3) COVER("subnodes dropped");
}
static unsigned X_pb;
static void NBC_handlePolicyChanges(Metadata *m, PathNode *n, const BackupPolicy p) { OBL(m == &M && n == &N && p == X_pol && !G.done && !G.self && !G.hit, "policy change is handled first"); G.done = 1; N.policy = p; N.hint |= X_pb; if(N.subnodes && nd_bool()) NL_W.hint |= BH_not_part_of_repository; }
void p_removed(void)
{
  meta(); node(); N.hint = 0; X_mode = 3; N.history = &nb_someh; nb_someh.state.type = nd_le(3); X_pol = nd_le(3); X_pb = nd_bool() ? BH_policy_changed : 0;
#ifdef NB_HAVE_handleRemovedPath
  handleRemovedPath(&M, &N, X_pol);
#endif
  OBL(G.done, "policy change is handled"); OBL(G.hit != G.self, "handled once"); 
  if(X_pol == BPOL_none && (N.subnodes == 0 || nb_someh.state.type != PST_directory)) { OBL(G.self, "unneeded implicit parents are dropped"); COVER("implicit"); } else { OBL(G.hit, "handled by policy"); if(X_pol == BPOL_mirror) COVER("mirror"); else COVER("other"); }
}
/* ---------- found paths ---------- */
static AllocatorPair AP; static struct Allocator { int x; } a1, a2; static unsigned X_apply; static _Bool w_applied; static SearchResult X_res; static nb_u64 X_tlen; static PathState *X_head; static PathState o_state;
void applyNodeChanges(AllocatorPair *ap, PathNode *n, PathState *s, struct stat st)
{
  OBL(ap == &AP && n == &N && G.done && !w_applied && st.st_mode == X_res.stats.st_mode && st.st_mtime == X_res.stats.st_mtime && st.st_uid == X_res.stats.st_uid, "compared with the file found"); if(X_pol == BPOL_track) OBL(s != X_head, "recorded state is preserved"); else OBL(s == X_head, "the single state is updated");
  OBL(s->uid == o_state.uid && s->type == o_state.type && s->metadata.directory_info.modification_time == o_state.metadata.directory_info.modification_time, "the latest state is compared"); MAYDIE; w_applied = 1; N.hint |= X_apply; if(X_apply) { s->uid = X_res.stats.st_uid; s->metadata.directory_info.permission_bits = X_res.stats.st_mode; }
}
StringView sSymlinkReadTarget(StringView p, Allocator *a) { OBL(sv_is(p, X_res.path) && a == AP.a, "target of the symlink found"); MAYDIE; nb_may_die = X_tlen != (nb_u64)X_res.stats.st_size; StringView v; SV_SET(v, rc, X_tlen, 1); return v; }
static unsigned rt(void) { return X_res.type == SRT_regular_file ? PST_regular_file : X_res.type == SRT_symlink ? PST_symlink : PST_directory; }
static _Bool is_res(const PathState *s)
{
  if(s->type != rt() || s->uid != X_res.stats.st_uid || s->gid != X_res.stats.st_gid) return 0; if(s->type == PST_symlink) return s->metadata.symlink_target.content == rc && s->metadata.symlink_target.length == X_tlen;
  if(s->type == PST_directory) return s->metadata.directory_info.permission_bits == X_res.stats.st_mode && s->metadata.directory_info.modification_time == X_res.stats.st_mtime;
  return s->metadata.file_info.permission_bits == X_res.stats.st_mode && s->metadata.file_info.modification_time == X_res.stats.st_mtime && s->metadata.file_info.size == (nb_u64)X_res.stats.st_size;
}
static void res(void) { X_res.type = nd_bool() ? SRT_regular_file : nd_bool() ? SRT_symlink : SRT_directory; SV_SET(X_res.path, &pc[7], 1, 1); X_pol = X_res.policy = nd_le(3); X_res.stats.st_mode = nd_u32(); X_res.stats.st_mtime = nd_u64(); X_res.stats.st_uid = nd_u32(); X_res.stats.st_gid = nd_u32(); X_res.stats.st_size = nd_u64(); X_tlen = nd_u64(); AP.a = &a1; AP.reusable_buffer = &a2; w_applied = 0; }
static unsigned tych(unsigned a, unsigned b)
{
  if(a == b) return 0; if(a == PST_regular_file) return b == PST_symlink ? BH_regular_to_symlink : BH_regular_to_directory; if(a == PST_symlink) return b == PST_regular_file ? BH_symlink_to_regular : BH_symlink_to_directory; return b == PST_regular_file ? BH_directory_to_regular : BH_directory_to_symlink;
}
void p_found(void)
{
  meta(); node(); N.hint = 0; res(); X_apply = (nd_u32() & 0x1F) << 4; X_pb = nd_bool() ? BH_policy_changed | (nd_bool() ? BH_loses_history : 0) : 0; PathHistory *h = N.history = hist(), *h2 = h->next; Backup *hb = h->backup; nb_u64 hr = hb->ref_count, c = M.current_backup.ref_count; unsigned t = h->state.type; X_head = &h->state; ASSUME(t != PST_non_existing || X_pol == BPOL_track);
  h->state.uid = o_state.uid = nd_u32(); h->state.metadata.directory_info.modification_time = o_state.metadata.directory_info.modification_time = nd_u64(); o_state.type = t;
#ifdef NB_HAVE_handleFoundNode
  handleFoundNode(&AP, &M, &N, X_res);
#endif
  OBL(G.done, "policy change is handled"); OBL(h->next == h2, "older history is intact"); unsigned ty = t == PST_non_existing ? BH_added : tych(t, rt()); OBL(N.hint == (X_pb | (ty ? ty : X_apply)), "the change is noted"); OBL(w_applied == !ty, "compared if the type is the same");
  if(X_pol == BPOL_track) {
    OBL(h->state.type == t && h->state.uid == o_state.uid && h->state.metadata.directory_info.modification_time == o_state.metadata.directory_info.modification_time && h->backup == hb && hb->ref_count == hr, "recorded history is preserved");
    if(ty || X_apply) { OBL(N.history == &newh && newh.next == h && newh.backup == &M.current_backup && M.current_backup.ref_count == c + 1, "new state in front of the history"); if(ty) OBL(is_res(&newh.state), "new state"); else OBL(newh.state.type == t && newh.state.uid == X_res.stats.st_uid, "new state"); COVER("tracked"); if(ty == BH_added) COVER("reappeared"); }
    else { OBL(N.history == h && M.current_backup.ref_count == c && !w_newh, "unchanged path keeps its states"); COVER("tracked unchanged"); }
    return; }
  OBL(N.history == h && !w_newh, "single state is kept or replaced"); if(ty && X_pol != BPOL_none) { OBL(is_res(&h->state), "replaced by the new state"); COVER("type changed"); }
  if(ty || X_apply || X_pol == BPOL_none) { OBL(h->backup == &M.current_backup && M.current_backup.ref_count == c + 1 && hb->ref_count == hr - 1, "belongs to the current backup"); COVER("changed"); } else { OBL(h->backup == hb && M.current_backup.ref_count == c && hb->ref_count == hr, "unchanged path keeps its state"); COVER("unchanged"); }
}
/* ---------- one search result with everything below ---------- */
static SearchIterator *it = (SearchIterator *)16; static PathNode *X_list, *X_old; static RegexList X_ign; static _Bool w_asked, X_isnew; static struct StringTable { int x; } tab; static nb_u64 w_rec; static unsigned X_hint; static _Bool X_wiped; static SearchNode sn; static PathNode *X_subs;
SearchResult searchGetNext(SearchIterator *i) { OBL(i == it && !w_asked, "next result"); w_asked = 1; MAYDIE; return X_res; }
void *strTableGet(const StringTable *t, StringView k) { OBL(t == &tab && sv_is(k, X_res.path), "the path found"); return X_isnew ? 0 : &N; }
StringView strCopy(StringView s, Allocator *a) { OBL(sv_is(s, X_res.path) && a == AP.a, "path is copied"); MAYDIE; StringView v; SV_SET(v, rc, s.length, 1); return v; }
void strSet(StringView *a, StringView b) { SV_CPY(*a, b); }
static PathNode *cur(void) { return X_isnew ? &newn : &N; }
static void NBC_handleFoundNode(AllocatorPair *ap, Metadata *m, PathNode *n, const SearchResult r) { OBL(ap == &AP && m == &M && n == &N && !X_isnew && r.type == X_res.type && r.policy == X_pol && r.node == &sn && r.stats.st_mode == X_res.stats.st_mode && !G.hit && w_rec == 0, "recorded path is compared"); OBL(!X_wiped && N.hint == BH_none, "paths wiped before are not compared"); MAYDIE; G.hit = 1; N.hint = X_hint; { unsigned ty = N.hint & 0x1FF; X_d2x = ty == BH_directory_to_regular || ty == BH_directory_to_symlink; ASSUME(!X_d2x || rt() != PST_directory); } N.policy = r.policy; nb_someh.state.type = rt(); }
static SearchResultType NBC_initiateMetadataRecursively(AllocatorPair *ap, Metadata *m, PathNode **l, SearchIterator *i, const RegexList *ign)
{
  OBL((X_mode == 6 || ap == &AP) && m == &M && i == it && ign == &X_ign, "arguments");
  if(X_mode == 6) { OBL(l == &M.paths && !G.done && !w_nf, "paths found below the root"); MAYDIE; if(nd_bool()) { G.done = 1; return SRT_end_of_search; } return nd_bool() ? SRT_other : SRT_regular_file; }
  OBL(l == &cur()->subnodes && X_res.type == SRT_directory && !G.done && !w_nf && (X_isnew || X_wiped || G.hit), "content of the directory"); MAYDIE; w_rec = 1;
  if(nd_bool()) { G.done = 1; *l = X_subs; return SRT_end_of_directory; } return nd_bool() ? SRT_other : SRT_symlink;
}
static void NBC_handleNotFoundSubnodes(Metadata *m, const SearchNode *s, const BackupPolicy p, PathNode *l, const RegexList *ign)
{
  OBL(m == &M && !w_nf && ign == &X_ign, "handled once");
  if(X_mode == 6) { OBL(G.done && s == &sn && p == sn.policy && l == M.paths, "missing paths below the root"); w_nf = 1; return; }
  OBL(s == X_res.node && p == X_pol && l == cur()->subnodes && (X_res.type != SRT_directory || G.done), "missing paths below a found path"); w_nf = 1;
}
void p_visit(void)
{
  X_allw = nd_bool(); meta(); node(); res(); X_mode = 5; M.path_table = (StringTable *)&tab; X_isnew = nd_bool(); N.history = &nb_someh; X_res.node = &sn; X_subs = NB_AT(NL, 0); if(X_res.type == SRT_directory || X_isnew) { N.subnodes = 0; } if(nd_bool()) X_res.type = nd_bool() ? SRT_end_of_directory : nd_bool() ? SRT_end_of_search : SRT_other;
  static PathNode oldn; X_list = &oldn; w_asked = w_nf = 0; w_rec = 0; nb_u64 t = M.total_path_count, c = M.current_backup.ref_count; nb_may_die = 0; nb_W = NL_w; if(X_isnew && X_res.type != SRT_directory) ASSUME(NL_L == 0);
  _Bool isdirect = X_res.type == SRT_directory; X_d2x = 0; X_hint = nd_le(0x7FF); X_wiped = nd_bool(); N.hint = X_wiped ? BH_not_part_of_repository | (nd_bool() ? BH_policy_changed : 0) | (nd_bool() ? BH_loses_history : 0) : BH_none; { unsigned ty = X_hint & 0x1FF; X_ext = X_pol == BPOL_track && (ty == BH_directory_to_regular || ty == BH_directory_to_symlink); if(X_isnew || X_wiped) X_ext = 0; }
  SearchResultType r = 0;
#ifdef NB_HAVE_initiateMetadataRecursively
  r = initiateMetadataRecursively(&AP, &M, &X_list, it, &X_ign);
#endif
  OBL(w_asked && r == X_res.type, "type of the result");
  if(X_res.type != SRT_regular_file && X_res.type != SRT_symlink && X_res.type != SRT_directory) { OBL(!w_newn && !w_newh && !w_rec && !w_nf && !G.hit && !G.self && G.pos == 0 && X_list == &oldn && M.total_path_count == t, "nothing is recorded"); COVER("end"); return; }
  PathNode *n = cur(); OBL(w_rec == isdirect && G.done == isdirect, "content of directories is visited");
  if(X_isnew) { OBL(w_newn && X_list == &newn && newn.next == &oldn && newn.path.content == rc && newn.path.length == 1 && newn.policy == X_pol && !G.hit, "new node in the list"); OBL(M.total_path_count == t + 1 && M.current_backup.ref_count == c + 1, "counted"); OBL(newn.history == &newh && newh.next == 0 && newh.backup == &M.current_backup && is_res(&newh.state), "one state of the current backup"); COVER("new path"); }
  else if(X_wiped) { OBL(!G.hit && !w_newn && X_list == &oldn && N.policy == X_pol, "wiped path is added again"); OBL(M.total_path_count == t + 1 && M.current_backup.ref_count == c + 1, "counted"); OBL(N.history == &newh && newh.next == 0 && newh.backup == &M.current_backup && is_res(&newh.state), "one state of the current backup"); COVER("added again"); }
  else { OBL(G.hit && !w_newn && !w_newh && X_list == &oldn && N.history == &nb_someh, "recorded node is compared"); COVER("known path"); }
  _Bool direct = X_d2x || (X_pol == BPOL_track && rt() == PST_regular_file); OBL(w_nf == !direct, "missing paths below are handled"); if(direct) { OBL(G.pos == NL_L, "everything below"); COVER("replaced"); } else OBL(G.pos == 0, "only missing paths");
  if(X_pol == BPOL_none) { if(NL_L > 0 && !nb_wiped()) { OBL(!G.self, "needed implicit parents are kept"); COVER("needed"); } if(X_allw) { OBL(G.self, "unneeded implicit parents are dropped"); COVER("unneeded"); } }
  if(X_pol != BPOL_none) { OBL(!G.self, "found paths stay in the backup"); if(X_isnew || X_wiped) OBL(n->hint == BH_added, "marked as new"); else OBL(N.hint != BH_none, "unchanged paths are marked"); }
}
void p_init(void)
{
  meta(); X_mode = 6; nidx = 0; M.paths = NB_NEW(NL); static RegexList *ip; ip = &X_ign; sn.ignore_expressions = &ip; sn.policy = nd_le(3); G.done = w_nf = 0;
  initiateBackup(&M, &sn); OBL(G.done && w_nf, "every path found and missing is handled"); COVER("done");
}
Allocator *allocatorWrapRegion(CR_Region *r) { return &a1; }
Allocator *allocatorWrapOneSingleGrowableBuffer(CR_Region *r) { return &a2; }
SearchIterator *searchNew(SearchNode *r) { OBL(r == &sn, "search tree"); return it; }
/* ---------- paths which were not found ---------- */
static void NBC_handleRemovedPath(Metadata *m, PathNode *n, const BackupPolicy p)
{
  OBL(m == &M && NB_POS(NL, n) < NL_L && NB_POS(NL, n) >= G.pos, "each subnode once"); OBL(n->hint == BH_none, "only paths which were not found"); _Bool f = knd(n->path) & 1;
  OBL(f || (!X_self && !(knd(n->path) & 2)), "ignored and no longer configured paths are not kept"); OBL(p == (f ? sn0.policy : X_pol), "policy of the configuration"); G.pos = NB_POS(NL, n) + 1; if(n == &NL_W) G.hit = 1;
}
static SearchNode *NBC_matchesSearchSubnodes(StringView p, const SearchNode *r) { OBL(r == &sn, "search node of the directory"); return (knd(p) & 1) ? &sn0 : 0; }
static bool NBC_matchesIgnoreList(StringView p, const RegexList *l) { OBL(l == &X_ign, "ignore expressions"); return (knd(p) & 2) != 0; }
void p_missing(void)
{
  meta(); X_mode = 4; nidx = 0; PathNode *l = NB_NEW(NL); nb_W = NL_w; G.pos = 0; G.hit = 0; X_pol = nd_le(3); X_self = X_pol == BPOL_none; sn0.policy = nd_le(3);
#ifdef NB_HAVE_handleNotFoundSubnodes
  handleNotFoundSubnodes(&M, &sn, X_pol, l, &X_ign);
#endif
  if(NL_w < NL_L) OBL(G.hit == (NL_W.hint == BH_none), "exactly the paths which were not found are handled"); COVER("done"); if(NL_L > 4) COVER("many");
}
/* ---------- search nodes and ignore expressions ---------- */
static StringView X_path, X_tail; static regex_t rxs[8]; static nb_u8 hits[8]; static int sidx;
PathSplit strSplitPath(StringView p) { OBL(sv_is(p, X_path), "the path"); PathSplit s; SV_SET(s.head, pc, 1, 0); SV_CPY(s.tail, X_tail); return s; }
bool sRegexIsMatching(const regex_t *r, StringView s) { if(X_mode == 7) OBL(sv_is(s, X_tail), "name of the path"); else OBL(sv_is(s, X_path), "the full path"); for(int i = 0; i < 7; i++) if(r == &rxs[i]) return hits[i]; OBL(0, "expression of the configuration"); return 0; }
bool strIsEqual(StringView a, StringView b) { OBL(sv_is(a, X_tail) || sv_is(b, X_tail), "compared with the name"); if(sv_is(a, X_tail)) { StringView t; SV_CPY(t, b); for(int i = 0; i < 7; i++) if(t.content == &pc[i]) return hits[i]; } for(int i = 0; i < 7; i++) if(a.content == &pc[i]) return hits[i]; OBL(0, "name of the configuration"); return 0; }
static void fill_s(SearchNode *n, nb_u64 pos) { int i = sidx++ % 7; SV_SET(n->name, &pc[i], 1, 1); n->regex = nd_bool() ? &rxs[i] : 0; hits[i] = nd_bool(); }
NB_LIST(SearchNode, SL, next, fill_s)
SearchNode *nb_sn_gen(void) { sidx = 3; return SL_gen(); }
nb_u64 nb_spos(const SearchNode *p) { return NB_POS(SL, p); }
static _Bool shit(const SearchNode *n) { for(int i = 0; i < 7; i++) if(n->name.content == &pc[i]) return hits[i]; return 0; }
_Bool nb_smatch(void) { return SL_w < SL_L && shit(&SL_W); }
static void fill_r(RegexList *n, nb_u64 pos) { int i = sidx++ % 7; n->regex = &rxs[i]; hits[i] = nd_bool(); }
NB_LIST(RegexList, RL, next, fill_r)
const RegexList *nb_rx_gen(void) { sidx = 3; return RL_gen(); }
nb_u64 nb_rpos(const RegexList *p) { return NB_POS(RL, p); }
_Bool nb_rmatch(void) { if(RL_w >= RL_L) return 0; for(int i = 0; i < 7; i++) if(RL_W.regex == &rxs[i]) return hits[i]; return 0; }
void p_match(void)
{
  X_mode = 7; sidx = 0; SV_SET(X_path, rc, 5, 1); SV_SET(X_tail, &pc[8], 1, 1); _Bool nul = nd_bool(); sn.subnodes = NB_NEW(SL); nb_W = SL_w; SearchNode *m = 0;
#ifdef NB_HAVE_matchesSearchSubnodes
  m = matchesSearchSubnodes(X_path, nul ? 0 : &sn);
#endif
  if(nul) { OBL(m == 0, "no search node"); COVER("null"); return; }
  if(m) { OBL(shit(m), "matching node"); COVER("match"); if(nb_spos(m) > 4) COVER("late"); OBL(nb_spos(m) < SL_L && (nb_spos(m) <= SL_w || !nb_smatch()), "first matching node"); } else { OBL(!nb_smatch(), "matching nodes are found"); COVER("none"); }
}
void p_ignore(void)
{
  X_mode = 8; sidx = 0; SV_SET(X_path, rc, 5, 1); const RegexList *l = NB_NEW(RL); nb_W = RL_w; _Bool m = 0;
#ifdef NB_HAVE_matchesIgnoreList
  m = matchesIgnoreList(X_path, l);
#endif
  if(nb_rmatch()) OBL(m, "matching expressions are found"); if(RL_L == 0) OBL(!m, "no expression matches"); if(m) COVER("match"); else COVER("none");
}
