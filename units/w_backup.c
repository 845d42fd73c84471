/*NB-UNIT
{ "src": "backup.c", "props": ["C05","C06","C07","C08","C09"],
  "targets": ["initiateBackup","finishBackup"],
  "entries": ["n_content","n_changes","n_found","n_missing","n_store"],
  "entry_props": {"n_content": ["C06"], "n_changes": ["C07"], "n_found": ["C08"], "n_missing": ["C09"], "n_store": ["C05"]},
  "mode": "N", "direct": 1, "nsecs": 20, "ncount": 60000,
  "nlink": ["str.c","safe-math.c","string-table.c","search-tree.c","search.c","backup-helpers.c","file-hash.c","metadata.c",
           "third-party/SipHash/siphash.c","third-party/BLAKE2/blake2b.c"]
}
*/
//@POST
/* Search for failing inputs with complete backups in an in-memory world
   (supplements the contracts; counted as samples only). */
static const char *W_on;
#define ON(p) (strcmp(W_on, p) == 0)
#define OBLW(p, c, name) do { if(ON(p)) OBL(c, p ": " name); } while(0)
#define OBLN(c, name) do { if(ON("C08") || ON("C09")) OBL(c, name); } while(0)
#define OBLH(c, name) do { if(ON("C05") || ON("C06")) OBL(c, name); } while(0)
#define NB_ON_DIE do { if(w_race || w_init) NB_STOP("rejected"); OBL(nb_may_die, "unexpected error exit"); } while(0)
static _Bool w_race, w_init;
//@include world.h
extern Metadata *metadataNew(CR_Region *r);
extern Metadata *metadataLoad(CR_Region *r, StringView path);
extern void metadataWrite(Metadata *metadata, StringView repo_path, StringView repo_tmp_file_path, StringView repo_metadata_path);
/* ---- what the search reports ---- */
struct found { char path[MF_PATH]; SearchResultType type; BackupPolicy pol; struct stat st; const SearchNode *node; _Bool used; };
static struct found fo[128]; static unsigned nfo;
static void collect(void)
{
  nfo = 0; SearchNode *root = searchTreeParse(CR_RegionNew(), strUnterminated(w_cfg, strlen(w_cfg)));
  SearchIterator *it = searchNew(root);
  for(;;) {
    SearchResult s = searchGetNext(it); if(s.type == SRT_end_of_search) break; if(s.type == SRT_end_of_directory || s.type == SRT_other) continue;
    if(nfo == 128) NB_STOP("big"); struct found *f = &fo[nfo++]; strcpy(f->path, mf_name(s.path)); f->type = s.type; f->pol = s.policy; f->st = s.stats; f->node = s.node; f->used = 0; }
}
static struct found *found(StringView p) { for(unsigned i = 0; i < nfo; i++) if(strIsEqual(str(fo[i].path), p)) return &fo[i]; return 0; }
/* ---- old metadata ---- */
struct old { StringView path; BackupPolicy pol; unsigned n; PathState st[12]; Backup *bk[12]; _Bool used; PathNode *node; int parent; unsigned nsub; PathNode *subs; };
static struct old ol[128]; static unsigned nol;
static void snap(PathNode *l, int parent)
{
  for(; l; l = l->next) {
    if(nol == 128) NB_STOP("big"); int me = nol; struct old *o = &ol[nol++]; SV_SET(o->path, l->path.content, l->path.length, 0); o->pol = l->policy; o->n = 0; o->used = 0; o->node = l; o->parent = parent; o->subs = l->subnodes;
    for(PathHistory *h = l->history; h; h = h->next) { if(o->n == 12) NB_STOP("big"); __builtin_memcpy((void *)&o->st[o->n], &h->state, sizeof h->state); o->bk[o->n++] = h->backup; }
    snap(l->subnodes, me); }
}
static struct old *oldn(StringView p) { for(unsigned i = 0; i < nol; i++) if(strIsEqual(ol[i].path, p)) return &ol[i]; return 0; }
static _Bool wiped(PathNode *n) { return backupHintNoPol(n->hint) == BH_not_part_of_repository; }
static void fsstate(PathState *s, struct found *f)
{
  memset((void *)s, 0, sizeof *s); s->uid = f->st.st_uid; s->gid = f->st.st_gid; s->type = f->type == SRT_regular_file ? PST_regular_file : f->type == SRT_symlink ? PST_symlink : PST_directory;
  if(s->type == PST_symlink) { struct mf *m = mf_get(f->path, 0); SV_SET(s->metadata.symlink_target, strdup((char *)m->data), m->size, 1); }
  else if(s->type == PST_directory) { s->metadata.directory_info.permission_bits = f->st.st_mode; s->metadata.directory_info.modification_time = f->st.st_mtime; }
  else { s->metadata.file_info.permission_bits = f->st.st_mode; s->metadata.file_info.modification_time = f->st.st_mtime; s->metadata.file_info.size = f->st.st_size; }
}
/* which attributes differ from the recorded state (same type) */
static unsigned diff(const PathState *a, const PathState *b, struct found *f)
{
  unsigned d = 0; if(a->uid != b->uid || a->gid != b->gid) d |= BH_owner_changed;
  if(a->type == PST_symlink) { if(!strIsEqual(a->metadata.symlink_target, b->metadata.symlink_target)) d |= BH_content_changed; }
  else if(a->type == PST_directory) { if(a->metadata.directory_info.permission_bits != b->metadata.directory_info.permission_bits) d |= BH_permissions_changed; if(a->metadata.directory_info.modification_time != b->metadata.directory_info.modification_time) d |= BH_timestamp_changed; }
  else { const RegularFileInfo *x = &a->metadata.file_info, *y = &b->metadata.file_info;
    if(x->permission_bits != y->permission_bits) d |= BH_permissions_changed; if(x->modification_time != y->modification_time) d |= BH_timestamp_changed;
    if(x->size != y->size) d |= BH_content_changed;
    else if((d & BH_timestamp_changed) && x->size > 0) { struct mf *m = mf_get(f->path, 1); const nb_u8 *c = w_state_content(x); OBL(c != 0, "recorded content is in the repository"); if(memcmp(c, m->data, x->size)) d |= BH_content_changed | BH_fresh_hash; } }
  return d;
}
static Metadata *M; static SearchNode *root; static const RegexList *ign;
static _Bool hist_is(PathHistory *h, struct old *o, unsigned from, unsigned n) { for(unsigned i = 0; i < n; i++, h = h->next) if(!h || h->backup != o->bk[from + i] || !w_same_state(&h->state, &o->st[from + i], 1)) return 0; return h == 0; }
static BackupHint tych(PathStateType a, PathStateType b)
{
  if(a == PST_regular_file) return b == PST_symlink ? BH_regular_to_symlink : b == PST_directory ? BH_regular_to_directory : 0;
  if(a == PST_symlink) return b == PST_regular_file ? BH_symlink_to_regular : b == PST_directory ? BH_symlink_to_directory : 0;
  return b == PST_regular_file ? BH_directory_to_regular : b == PST_symlink ? BH_directory_to_symlink : 0;
}
static _Bool needed(PathNode *l) { for(; l; l = l->next) if(!wiped(l)) return 1; return 0; }
/* recorded below a path which loses the history in which it was a directory */
static _Bool lost(struct old *o)
{
  if(o->parent < 0) return 0; struct old *p = &ol[o->parent]; if(lost(p)) return 1; struct found *f = found(p->path);
  return f && p->pol == BPOL_track && f->pol != BPOL_track && p->st[p->st[0].type == PST_non_existing].type != PST_directory;
}
static void check_found(PathNode *n, struct found *f)
{
  struct old *o = oldn(n->path); if(o && lost(o)) o = 0; PathState now; fsstate(&now, f); f->used = 1;
  OBLW("C08", n->policy == f->pol, "policy of the configuration");
  if(!o) {
    if(f->pol == BPOL_none && !needed(n->subnodes)) OBLW("C08", wiped(n), "unneeded implicit parent"); else OBLW("C08", n->hint == BH_added, "new path is added");
    OBLW("C08", n->history && n->history->next == 0 && n->history->backup == &M->current_backup && w_same_state(&n->history->state, &now, 0), "new path gets one state of the current backup");
    return; }
  unsigned from = 0, k = o->n; unsigned pb = 0;
  if(o->pol != f->pol) { pb |= BH_policy_changed; if(o->pol == BPOL_track) { if(o->st[0].type == PST_non_existing) { from = 1; k--; } if(k > 1) { pb |= BH_loses_history; k = 1; } } }
  const PathState *last = &o->st[from]; _Bool none = f->pol == BPOL_none;
  if(wiped(n)) { OBLW("C08", none && !needed(n->subnodes), "found path stays in the backup"); }
  else if(none) OBLW("C08", needed(n->subnodes), "unneeded implicit parent is dropped");
  unsigned h = n->hint & ~(BH_policy_changed | BH_loses_history);
  if(!wiped(n)) OBLW("C08", (n->hint & (BH_policy_changed | BH_loses_history)) == pb, "policy change is noted");
  if(last->type == PST_non_existing) {
    if(f->pol == BPOL_track) { if(!wiped(n)) OBLW("C08", h == BH_added, "reappeared path is added");
      OBLW("C08", n->history->backup == &M->current_backup && w_same_state(&n->history->state, &now, 0) && hist_is(n->history->next, o, from, k), "reappeared path gets a new state in front of its history"); }
    return; }
  if(last->type != now.type) {
    BackupHint t = tych(last->type, now.type); if(!wiped(n)) OBLW("C08", h == t, "type change is noted");
    if(f->pol == BPOL_track) OBLW("C08", n->history->backup == &M->current_backup && w_same_state(&n->history->state, &now, 0) && hist_is(n->history->next, o, from, k), "new state in front of the history");
    else if(!none) OBLW("C08", n->history->backup == &M->current_backup && w_same_state(&n->history->state, &now, 0) && !n->history->next, "single state replaced");
    return; }
  unsigned d = diff(last, &now, f);
  if(!wiped(n)) { OBLW("C07", (h & ~(BH_unchanged | BH_fresh_hash)) == (d & ~BH_fresh_hash), "exactly the differing attributes are marked"); OBLW("C07", IMPLIES(h & BH_fresh_hash, d & BH_fresh_hash), "fresh hash"); }
  if(f->pol == BPOL_track) {
    if(d == 0) OBLW("C08", hist_is(n->history, o, from, k), "unchanged path keeps its states");
    else { OBLW("C08", n->history->backup == &M->current_backup && hist_is(n->history->next, o, from, k), "changed tracked path gets a new state"); OBLW("C07", w_same_state(&n->history->state, &now, 0), "new values are recorded"); } }
  else {
    OBLW("C07", w_same_state(&n->history->state, &now, 0), "new values are recorded"); OBLW("C08", n->history->next == 0, "single state");
    if(d == 0 && !pb && !none) OBLW("C08", n->history->backup == o->bk[from], "unchanged path keeps its states"); else if(d || none) OBLW("C08", n->history->backup == &M->current_backup, "changed path belongs to the current backup"); }
  if(last->type == PST_regular_file && !(d & BH_content_changed)) OBLW("C07", memcmp(n->history->state.metadata.file_info.hash, last->metadata.file_info.hash, now.metadata.file_info.size < 20 ? now.metadata.file_info.size : 20) == 0 && (now.metadata.file_info.size <= 20 || n->history->state.metadata.file_info.slot == last->metadata.file_info.slot), "unchanged content keeps its hash");
}
/* ---- paths which are not found ---- */
static void all_wiped(PathNode *n) { OBLW("C09", wiped(n), "no longer part of the backup"); for(PathNode *s = n->subnodes; s; s = s->next) all_wiped(s); }
static void removed(PathNode *n, struct old *o, unsigned from, unsigned k, _Bool ext)
{
  if(o->st[from].type == PST_non_existing) { OBLW("C09", !wiped(n) && backupHintNoPol(n->hint) <= BH_unchanged, "already removed path is unchanged"); OBLW("C09", hist_is(n->history, o, from, k), "history left intact"); }
  else {
    OBLW("C09", backupHintNoPol(n->hint) == BH_removed, "missing path is removed"); ext = ext && n->policy == BPOL_track;
    if(ext) OBLW("C09", n->history->backup == &M->current_backup && n->history->state.type == PST_non_existing && hist_is(n->history->next, o, from, k), "one non-existing state in front of the intact history");
    else OBLW("C09", hist_is(n->history, o, from, k), "history left intact"); }
  for(PathNode *s = n->subnodes; s; s = s->next) { if(found(s->path)) continue; struct old *q = oldn(s->path); OBL(q != 0, "known path"); OBLW("C09", s->policy == q->pol, "policy kept"); removed(s, q, 0, q->n, ext); }
}
static void missing(PathNode *n, struct old *o, BackupPolicy pol)
{
  unsigned from = 0, k = o->n; unsigned pb = 0; _Bool wipesub = 0;
  if(o->pol != pol) { pb |= BH_policy_changed; if(o->pol == BPOL_track) { if(o->st[0].type == PST_non_existing) { from = 1; k--; } if(k > 1) { pb |= BH_loses_history; k = 1; } if(o->st[from].type != PST_directory) wipesub = 1; } }
  if(pol == BPOL_mirror) { all_wiped(n); return; }
  OBLW("C09", n->policy == pol, "policy of the configuration");
  if(pol == BPOL_none && (!n->subnodes || o->st[from].type != PST_directory)) { OBLW("C09", wiped(n), "no longer part of the backup"); return; }
  OBLW("C09", (n->hint & (BH_policy_changed | BH_loses_history)) == pb, "policy change is noted");
  if(wipesub) { for(PathNode *s = n->subnodes; s; s = s->next) all_wiped(s); PathNode *s = n->subnodes; n->subnodes = 0; removed(n, o, from, k, 1); n->subnodes = s; return; }
  removed(n, o, from, k, 1);
}
static void check_subs(PathNode *list, struct found *f, const SearchNode *sn, BackupPolicy pol)
{
  for(PathNode *n = list; n; n = n->next) {
    struct found *g = found(n->path); if(g) continue; struct old *o = oldn(n->path); OBL(o != 0, "no invented paths");
    SearchNode *m = 0; if(sn) for(SearchNode *x = sn->subnodes; x; x = x->next) if(x->regex ? sRegexIsMatching(x->regex, strSplitPath(n->path).tail) : strIsEqual(x->name, strSplitPath(n->path).tail)) { m = x; break; }
    _Bool ig = 0; for(const RegexList *r = ign; r; r = r->next) ig |= sRegexIsMatching(r->regex, n->path);
    if(m) missing(n, o, m->policy); else if(pol == BPOL_none || ig) all_wiped(n); else missing(n, o, pol); }
}
static void check_tree(PathNode *list)
{
  for(PathNode *n = list; n; n = n->next) {
    for(PathNode *m = n->next; m; m = m->next) OBLW("C08", !strIsEqual(n->path, m->path), "each path once");
    struct found *f = found(n->path);
    if(f) { OBLW("C08", !f->used, "each path once"); check_found(n, f);
      struct old *o = oldn(n->path); unsigned from = o && o->pol == BPOL_track && o->pol != f->pol && o->st[0].type == PST_non_existing;
      unsigned t = o && o->st[from].type != PST_non_existing ? (f->type == SRT_regular_file ? tych(o->st[from].type, PST_regular_file) : f->type == SRT_symlink ? tych(o->st[from].type, PST_symlink) : tych(o->st[from].type, PST_directory)) : 0;
      if(t == BH_directory_to_regular || t == BH_directory_to_symlink) {
        for(PathNode *s = n->subnodes; s; s = s->next) { struct old *q = oldn(s->path);
          if(o->pol == BPOL_track && f->pol != BPOL_track && 0) all_wiped(s);
          else if(f->pol == BPOL_none || f->pol == BPOL_track) { if(!(wiped(s) && f->pol == BPOL_none)) removed(s, q, 0, q->n, f->pol == BPOL_track); }
          else all_wiped(s); } }
      else if(f->type == SRT_regular_file && f->pol == BPOL_track) { for(PathNode *s = n->subnodes; s; s = s->next) { struct old *q = oldn(s->path); removed(s, q, 0, q->n, 0); } }
      else if(!(o && o->pol == BPOL_track && o->pol != f->pol && o->st[from].type != PST_directory)) check_subs(n->subnodes, f, f->node, f->pol); }
    check_tree(n->subnodes); }
}
static struct mf *w_raced; static _Bool w_early; static _Bool w_same; static nb_u8 *w_before; static nb_u64 w_before_n;
static nb_u64 cnt[64]; static nb_u64 total;
static void count(PathNode *l) { for(; l; l = l->next) { if(wiped(l)) continue; total++; for(PathHistory *h = l->history; h; h = h->next) { if(h->backup == &M->current_backup) cnt[63]++; else cnt[h->backup - M->backup_history]++; } count(l->subnodes); } }
static void check_content(PathNode *l)
{
  for(; l; l = l->next) { if(!wiped(l)) for(PathHistory *h = l->history; h; h = h->next) {
      if(h->state.type == PST_regular_file) { const RegularFileInfo *f = &h->state.metadata.file_info;
        if(f->size > 20) { struct mf *m = w_stored(f); OBLW("C06", m && m->size == f->size, "stored copy of every recorded file"); nb_u8 x[20]; if(m && !(w_race && w_same)) { w_hash(x, m->data, m->size); OBLH(memcmp(x, f->hash, 20) == 0, "hash of the content"); } }
        struct found *g = h == l->history ? found(l->path) : 0; if(g && h->backup == &M->current_backup && g->type == SRT_regular_file) { struct mf *m = mf_get(g->path, 1); struct old *o = oldn(l->path); 
          /* same size and timestamp: treated as unchanged */
          _Bool skip = 0; if(o) for(unsigned i = 0; i < o->n && i < 2; i++) if(o->st[i].type == PST_regular_file && o->st[i].metadata.file_info.size == f->size && o->st[i].metadata.file_info.modification_time == f->modification_time) skip = 1;
          if(!w_race && !skip && m) OBLW("C06", m->size == f->size && memcmp(m->data ? m->data : (nb_u8 *)"", w_state_content(f) ? w_state_content(f) : (nb_u8 *)"!", f->size) == 0, "recorded content is the content of the file");
          if(w_race && m && !skip && !(w_raced == m && w_same)) { const nb_u8 *c = w_state_content(f); _Bool ok = c && m->size == f->size && memcmp(m->data ? m->data : (nb_u8 *)"", c, f->size) == 0; if(!ok && c && w_raced == m) ok = w_before_n == f->size && memcmp(w_before, c, f->size) == 0; OBLW("C06", ok, "recorded content is the content before or after a concurrent change"); } } } }
    check_content(l->subnodes); }
}
static char w_race_path[MF_PATH];
static void race(void) { struct mf *m = mf_raw(w_race_path); if(!m || !S_ISREG(m->mode)) return; unsigned w = R(4); time_t t = m->mtime; w_raced = m; w_before_n = m->size; w_before = malloc(m->size + 1); memcpy(w_before, m->data, m->size);  if(w == 0 && m->size) { m->size -= 1 + R(m->size); } else if(w == 1) mf_add(m, "XYZXYZXYZXYZXYZXYZXYZXYZXYZ", 1 + R(27)); else if(w == 2) w_content(m); else if(m->size) { m->data[0] ^= 1; m->mtime = ++mf_clock; } if(w < 3 && R(2)) m->mtime = t; /* a change of the content alone is noticed only before the file is opened */ w_same = m->size == w_before_n && !(w_early && m->mtime != t); }
/* the backup of a state recorded before with a lone non-existing state may
   not be loaded: excluded */
static void collide(void);
static void round_(unsigned last)
{
  if(ON("C05") && R(3) == 0) collide();
  w_init = 1; collect(); w_init = 0; nb_may_die = 0;
  /* as many scenarios as possible must be accepted: a directory in place of
     a file above configured paths makes the search fail, as documented */
  CR_Region *r = CR_RegionNew(); w_init = 1; root = searchTreeParse(r, strUnterminated(w_cfg, strlen(w_cfg))); w_init = 0; ign = *root->ignore_expressions;
  M = mf_raw("/R/metadata") ? metadataLoad(r, str("/R/metadata")) : metadataNew(r);
  nol = 0; snap(M->paths, -1);
  unsigned m0 = mf_mods; w_readonly_repo = 1;
  initiateBackup(M, root);
  w_readonly_repo = 0; OBL(mf_mods == m0, "scanning changes nothing"); 
  check_tree(M->paths);
  for(unsigned i = 0; i < nfo; i++) OBLW("C08", fo[i].used, "every found path is recorded");
  check_subs(M->paths, 0, root, root->policy);
  total = 0; for(int i = 0; i < 64; i++) cnt[i] = 0; count(M->paths);
  OBLN(cnt[63] == M->current_backup.ref_count, "states of the current backup are counted");
  for(nb_u64 i = 0; i < M->backup_history_length && i < 63; i++) OBLN(M->backup_history[i].ref_count == cnt[i], "states of each backup are counted");
  OBLN(total == M->total_path_count, "paths are counted");
  if(last && R(2) && (ON("C06") || ON("C05"))) { struct mf *m = 0; for(unsigned i = 0; i < nfo; i++) if(fo[i].type == SRT_regular_file && R(2)) { strcpy(w_race_path, fo[i].path); break; } mf_race = race; { unsigned k = R(12); w_early = k == 0; mf_race_at = mf_ops + k; } w_race = 1; }
  finishBackup(M, w_repo(), str("/R/tmp-file"));
  mf_race_at = ~0ul;
  OBLW("C06", mf_open == 0 && w_readers == 0 && w_writers == 0, "all streams closed");
  check_content(M->paths);
  metadataWrite(M, w_repo(), str("/R/tmp-file"), str("/R/metadata"));
}
/* stored files which only look like a file to back up */
static void collide(void)
{
  struct mf *m = w_pick(0); if(!S_ISREG(m->mode) || m->size <= 20) return; unsigned j = R(m->size - 1); if(R(2)) { m->data[j] = 0; m->mtime = ++mf_clock; }
  RegularFileInfo f; memset((void *)&f, 0, sizeof f); f.size = m->size; w_hash(f.hash, m->data, m->size); unsigned k = 1 + R(3); nb_u8 *d = malloc(m->size); memcpy(d, m->data, m->size); nb_u64 n = m->size;
  for(f.slot = 0; f.slot < k; f.slot++) { if(w_stored(&f)) return; nb_u8 *e = malloc(n); memcpy(e, d, n); e[j + 1 + R(n - j - 1)] ^= 1 + f.slot; w_put(w_abs(&f), e, n); }
}
/* policy and type changes of one tree */
static void script(void)
{
  static const char *const pol[] = { "copy", "mirror", "track" }; const char *a = w_names[R(5)], *b = w_names[R(5)]; char pa[40], pb[60]; sprintf(pa, "/%s", a); sprintf(pb, "/%s/%s", a, b);
  mf_new("/", S_IFDIR | 0755); mf_new("/R", S_IFDIR | 0755); w_attrs(mf_new(pa, S_IFDIR)); w_attrs(mf_new(pb, S_IFDIR)); for(unsigned k = R(4); k--;) w_create(pb); if(R(2)) w_create(pa);
  unsigned n = 2 + R(3), p = R(3) ? 2 : R(3); _Bool deep = R(3) == 0;
  while(n--) { sprintf(w_cfg, "[%s]\n%s\n", pol[p], deep ? pb : pa); if(R(8) == 0) strcat(w_cfg, R(2) ? "[ignore]\n/b$\n" : "[ignore]\n/a\n"); round_(0);
    struct mf *m = mf_raw(pb); unsigned w = R(6); if(m && w < 4) { w_rmtree(m); if(w < 2) { m = mf_new(pb, w ? S_IFREG : S_IFLNK | 0777); if(w) w_content(m); else mf_set(m, "x", 1); w_attrs(m); } } else if(!m) { w_attrs(mf_new(pb, S_IFDIR)); w_create(pb); }
    if(R(3) == 0) p = R(3); if(R(4) == 0) deep = !deep; }
}
static void run(const char *on)
{
  W_on = on; w_init = 1; if((ON("C08") || ON("C09")) && R(3) == 0) { w_init = 0; script(); return; } w_fs(); w_config(); w_init = 0; unsigned n = 1 + R(4);
  while(n--) { round_(n == 0); w_init = 1; w_mutate(); if(R(2)) w_config_mutate(); w_init = 0; }
}
void n_content(void) { run("C06"); }
void n_changes(void) { run("C07"); }
void n_found(void) { run("C08"); }
void n_missing(void) { run("C09"); }
void n_store(void) { run("C05"); }
