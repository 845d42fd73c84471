/*NB-UNIT
{ "src": "restore.c", "props": ["C10","C11"],
  "targets": ["initiateRestore","finishRestore"],
  "entries": ["n_select","n_restore"],
  "entry_props": {"n_select": ["C10"], "n_restore": ["C11"]},
  "mode": "N", "direct": 1, "nsecs": 20, "ncount": 60000,
  "nlink": ["str.c","safe-math.c","string-table.c","search-tree.c","search.c","backup.c","backup-helpers.c","file-hash.c","metadata.c",
           "third-party/SipHash/siphash.c","third-party/BLAKE2/blake2b.c"]
}
*/
//@POST
/* Search for failing inputs: histories are made by real backups in an
   in-memory world, then a random path is restored to a random backup. */
static const char *W_on; static _Bool w_init, w_fs_may_fail, w_expect, w_corrupt;
#define OBLW(p, c, name) do { if(strcmp(W_on, p) == 0) OBL(c, p ": " name); } while(0)
#define NB_ON_DIE do { if(w_init || w_corrupt) NB_STOP("rejected"); if(w_expect) NB_STOP("expected error"); OBL(nb_may_die, "unexpected error exit"); } while(0)
//@include world.h

extern Metadata *metadataNew(CR_Region *r);
extern Metadata *metadataLoad(CR_Region *r, StringView path);
extern void metadataWrite(Metadata *metadata, StringView repo_path, StringView repo_tmp_file_path, StringView repo_metadata_path);

static Metadata *M; static nb_u64 id;
static const PathState *chosen(PathNode *n)
{
  const PathState *s = 0;
  if(n->policy != BPOL_track) s = &n->history->state;
  else for(PathHistory *h = n->history; h; h = h->next) if(h->backup->id >= id) { s = &h->state; break; }
  return s && s->type != PST_non_existing ? s : 0;
}
struct aff { PathNode *n; const PathState *s; BackupHint h; _Bool re; }; static struct aff af[128]; static unsigned naf;
static struct aff *affected(PathNode *n) { for(unsigned i = 0; i < naf; i++) if(af[i].n == n) return &af[i]; return 0; }
static BackupHint expect(PathNode *n, const PathState *s, _Bool re)
{
  char p[MF_PATH]; strcpy(p, mf_name(n->path)); if(re) return BH_added; struct mf *l = mf_get(p, 0); if(!l) return BH_added;
  struct mf *m = s->type == PST_symlink ? l : mf_get(p, 1); if(!m) NB_STOP("dangling");
  mode_t t = m->mode & S_IFMT;
  if(s->type == PST_regular_file) { if(t == S_IFLNK) return BH_symlink_to_regular; if(t == S_IFDIR) return BH_directory_to_regular; if(t != S_IFREG) return BH_other_to_regular; }
  if(s->type == PST_symlink) { if(t == S_IFREG) return BH_regular_to_symlink; if(t == S_IFDIR) return BH_directory_to_symlink; if(t != S_IFLNK) return BH_other_to_symlink; }
  if(s->type == PST_directory) { if(t == S_IFREG) return BH_regular_to_directory; if(t == S_IFLNK) return BH_symlink_to_directory; if(t != S_IFDIR) return BH_other_to_directory; }
  unsigned h = 0; if(m->uid != s->uid || m->gid != s->gid) h |= BH_owner_changed;
  if(s->type == PST_symlink) { if(m->size != s->metadata.symlink_target.length || memcmp(m->data, s->metadata.symlink_target.content, m->size)) h |= BH_content_changed; }
  else if(s->type == PST_directory) { if(m->mode != s->metadata.directory_info.permission_bits) h |= BH_permissions_changed; if(m->mtime != s->metadata.directory_info.modification_time) h |= BH_timestamp_changed; }
  else { const RegularFileInfo *f = &s->metadata.file_info; if(m->mode != f->permission_bits) h |= BH_permissions_changed; if(m->mtime != f->modification_time) h |= BH_timestamp_changed;
    if(m->size != f->size) h |= BH_content_changed; else if((h & BH_timestamp_changed) && m->size && memcmp(w_state_content(f), m->data, m->size)) h |= BH_content_changed; }
  return h;
}
static _Bool recreated(unsigned h) { h &= 0x1FF; return h >= BH_added && h <= BH_other_to_directory; }
static void add(PathNode *n, const PathState *s, _Bool re, _Bool rec)
{
  if(naf == 128) NB_STOP("big"); struct aff *a = &af[naf++]; a->n = n; a->s = s; a->h = expect(n, s, re); a->re = recreated(a->h); if(s->type != PST_directory || !rec) return;
  for(PathNode *x = n->subnodes; x; x = x->next) { const PathState *t = chosen(x); if(t) add(x, t, a->re, 1); }
}
static void plan(StringView path)
{
  naf = 0; if(path.length == 0) { for(PathNode *n = M->paths; n; n = n->next) { const PathState *s = chosen(n); if(s) add(n, s, 0, 1); } return; }
  PathNode *l = M->paths; _Bool re = 0;
  for(;;) {
    PathNode *n = l; while(n && !strIsEqual(n->path, path) && !(n->path.length < path.length && memcmp(n->path.content, path.content, n->path.length) == 0 && path.content[n->path.length] == '/')) n = n->next;
    if(!n) { w_expect = 1; return; } const PathState *s = chosen(n); if(!s) { w_expect = 1; return; }
    if(strIsEqual(n->path, path)) { add(n, s, re, 1); return; }
    if(s->type != PST_directory) { w_expect = 1; return; }
    add(n, s, re, 0); re = af[naf - 1].re; l = n->subnodes; }
}
static void check_hints(PathNode *l) { for(; l; l = l->next) { struct aff *a = affected(l); unsigned h = l->hint & ~BH_fresh_hash; OBLW("C10", a ? h == a->h : h == BH_none, "exactly the differing paths are marked"); check_hints(l->subnodes); } }
static PathNode *pick(PathNode *l) { PathNode *r = 0; unsigned k = 0; for(; l; l = l->next) { if(R(++k) == 0) r = l; } if(r && r->subnodes && R(3)) return pick(r->subnodes); return r; }
static struct mf snapm[MF_MAX]; static nb_u8 *snapd[MF_MAX];
static _Bool under(const char *p, const char *d) { unsigned l = strlen(d); return strncmp(p, d, l) == 0 && (p[l] == 0 || p[l] == '/'); }
static void run(const char *on)
{
  W_on = on; w_init = 1; w_fs(); w_config(); unsigned n = 1 + R(4); CR_Region *r = CR_RegionNew();
  while(n--) {
    SearchNode *root = searchTreeParse(r, strUnterminated(w_cfg, strlen(w_cfg))); M = mf_raw("/R/metadata") ? metadataLoad(r, str("/R/metadata")) : metadataNew(r);
    initiateBackup(M, root); finishBackup(M, w_repo(), str("/R/tmp-file")); metadataWrite(M, w_repo(), str("/R/tmp-file"), str("/R/metadata"));
    w_mutate(); if(R(4) == 0) w_config_mutate(); }
  if(R(2)) w_mutate(); if(R(4) == 0) w_mutate();
  M = metadataLoad(r, str("/R/metadata")); id = R(M->backup_history_length + 2);
  StringView path = str(""); if(R(4)) { PathNode *x = pick(M->paths); if(x) strSet(&path, x->path); if(R(20) == 0) strSet(&path, str("/a/nope")); if(R(20) == 0) strSet(&path, str("/nope")); }
  plan(path); for(unsigned i = 0; i < MF_MAX; i++) mf_tab[i].mods = 0;
  unsigned m0 = mf_mods; _Bool ex = w_expect;
  if(!ex) { /* a path which cannot be examined may make the restore fail */ for(unsigned i = 0; i < naf; i++) { struct mf *m = mf_get(mf_name(af[i].n->path), 0); if(m && S_ISLNK(m->mode) && af[i].s->type != PST_symlink) w_fs_may_fail = 1; } }
  w_init = 0; if(w_fs_may_fail) w_init = 1;
  initiateRestore(M, id, path);
  OBLW("C10", !ex, "a path that is not recorded or did not exist then is an error"); OBL(!ex, "error expected");
  OBL(mf_mods == m0, "looking for differences changes nothing"); check_hints(M->paths);
  if(w_fs_may_fail) return; /* several recorded paths may be the same file */
  if(R(6) == 0) { for(unsigned i = 0; i < naf; i++) if(af[i].s->type == PST_regular_file && af[i].s->metadata.file_info.size > 20 && R(2)) { struct mf *m = w_stored(&af[i].s->metadata.file_info); if(m) { w_corrupt = 1; if(R(2)) m->size -= 1 + R(m->size); else m->used = 0; break; } } }
  for(unsigned i = 0; i < MF_MAX; i++) { __builtin_memcpy(&snapm[i], &mf_tab[i], sizeof mf_tab[i]); snapd[i] = malloc(mf_tab[i].size + 1); if(mf_tab[i].size) memcpy(snapd[i], mf_tab[i].data, mf_tab[i].size); }
  w_readonly_repo = 1; finishRestore(M, id, w_repo());
  OBL(mf_open == 0 && mf_dirs == 0 && w_readers == 0, "all streams closed");
  for(unsigned i = 0; i < naf; i++) {
    struct aff *a = &af[i]; if(a->n->policy == BPOL_none && !a->re) continue;
    struct mf *m = mf_get(mf_name(a->n->path), 0); const PathState *s = a->s; OBLW("C11", m != 0, "restored path exists"); if(!m) continue;
    OBLW("C11", (s->type == PST_regular_file && S_ISREG(m->mode)) || (s->type == PST_symlink && S_ISLNK(m->mode)) || (s->type == PST_directory && S_ISDIR(m->mode)), "type");
    OBLW("C11", m->uid == s->uid && m->gid == s->gid, "owner");
    if(s->type == PST_symlink) OBLW("C11", m->size == s->metadata.symlink_target.length && memcmp(m->data, s->metadata.symlink_target.content, m->size) == 0, "target");
    if(s->type == PST_directory) { OBLW("C11", m->mode == s->metadata.directory_info.permission_bits, "permissions"); OBLW("C11", m->mtime == s->metadata.directory_info.modification_time, "timestamp of the directory"); }
    if(s->type == PST_regular_file) { const RegularFileInfo *f = &s->metadata.file_info; OBLW("C11", m->mode == f->permission_bits, "permissions"); OBLW("C11", m->mtime == f->modification_time, "timestamp"); OBLW("C11", m->size == f->size, "size");
      const nb_u8 *c = w_state_content(f); if(!(w_corrupt && !a->re && !(a->h & BH_content_changed)) && (a->re || (a->h & (BH_content_changed | BH_timestamp_changed))) && f->size) OBLW("C11", c && memcmp(m->data, c, f->size) == 0, "content"); } }
  for(unsigned i = 0; i < MF_MAX; i++) if(snapm[i].used) {
    struct mf *o = &snapm[i]; _Bool touched = 0, parent = 0;
    for(unsigned k = 0; k < naf; k++) { char p[MF_PATH]; strcpy(p, mf_name(af[k].n->path)); if(strcmp(p, o->path) == 0) { if(!(af[k].n->policy == BPOL_none && !af[k].re) && (af[k].h != 0 || S_ISDIR(o->mode))) touched = 1; else parent = 1; } else if(under(o->path, p) && af[k].re) touched = 1; }
    if(touched) continue; struct mf *m = mf_raw(o->path); OBLW("C11", m && m->ino == o->ino && m->mods == 0 && m->mode == o->mode && m->uid == o->uid && m->gid == o->gid && m->size == o->size && (!m->size || memcmp(m->data, snapd[i], m->size) == 0), "other paths are not touched"); }
}
void n_select(void) { run("C10"); }
void n_restore(void) { run("C11"); }
