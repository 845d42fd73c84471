/*NB-UNIT
{ "src": "garbage-collector.c", "props": ["C12"],
  "targets": ["collectGarbage","collectGarbageProgress"],
  "entries": ["n_gc"], "mode": "N", "direct": 1, "nsecs": 20, "ncount": 60000,
  "nlink": ["str.c","safe-math.c","string-table.c","third-party/SipHash/siphash.c","third-party/BLAKE2/blake2b.c"]
}
*/
//@POST
#define MF_MAX 260
//@include world.h
//@include synth.h
static nb_u64 ncalls, nlimit; static int token;
static void progress(uint64_t d, size_t l, void *u) { OBL(u == &token, "user data"); ncalls++; nlimit = l; }
static char keep[300][MF_PATH]; static unsigned nk;
static void collect(PathNode *l) { for(; l; l = l->next) { if(backupHintNoPol(l->hint) == BH_not_part_of_repository) continue; for(PathHistory *h = l->history; h; h = h->next) if(h->state.type == PST_regular_file && h->state.metadata.file_info.size > 20) strcpy(keep[nk++], w_abs(&h->state.metadata.file_info)); collect(l->subnodes); } }
static _Bool kept(const char *p) { for(unsigned i = 0; i < nk; i++) if(strcmp(keep[i], p) == 0) return 1; return 0; }
static struct mf snap[MF_MAX];
void n_gc(void)
{
  mf_new("/", S_IFDIR | 0755); mf_new("/R", S_IFDIR | 0755); struct mf *o = mf_new("/out", S_IFDIR | 0755); o = mf_new("/out/f", S_IFREG | 0600); mf_set(o, "data", 4);
  sy_files(0); sy_build(); w_put("/R/config", "c", 1); w_put("/R/metadata", "mm", 2); if(R(2)) w_put("/R/lockfile", "", 0);
  unsigned n = R(8);
  while(n--) { /* things that do not belong there */
    static const char *const nm[] = { "/config", "/metadata", "/lockfile", "/x", "/0", "/00", "/ff", "/config2", "/tmp-file", "/a", "/meta" };
    struct mf *d; do d = &mf_tab[R(MF_MAX)]; while(!d->used || strncmp(d->path, "/R", 2) || !S_ISDIR(d->mode)); char p[MF_PATH]; strcpy(p, d->path); strcat(p, nm[R(11)]); if(mf_raw(p) || strlen(p) > 100) continue;
    unsigned t = R(6); struct mf *m = mf_new(p, t < 2 ? S_IFDIR | 0755 : t == 2 ? S_IFLNK | 0777 : t == 3 ? S_IFIFO | 0600 : S_IFREG | 0644); if(t == 2) { const char *g = R(2) ? "/out" : R(2) ? "/out/f" : "/R/config"; mf_set(m, g, strlen(g)); } if(t > 3) mf_set(m, "garbage-garbage", R(15)); }
  if(R(3) == 0) { /* a referenced file was replaced */ RegularFileInfo *f = &sy_pool[R(sy_np)]; struct mf *m = f->size > 20 ? w_stored(f) : 0; if(m) { if(R(2)) { m->mode = S_IFLNK | 0777; mf_set(m, "/out/f", 6); } else m->used = 0; } }
  nk = 0; strcpy(keep[nk++], "/R/config"); strcpy(keep[nk++], "/R/metadata"); strcpy(keep[nk++], "/R/lockfile"); collect(M.paths);
  memcpy(snap, mf_tab, sizeof snap); for(unsigned i = 0; i < MF_MAX; i++) mf_tab[i].mods = 0;
  nb_u64 cnt = 0, sz = 0; _Bool del[MF_MAX];
  for(unsigned i = 0; i < MF_MAX; i++) {
    struct mf *m = &snap[i]; del[i] = 0; if(!m->used || strncmp(m->path, "/R/", 3)) continue; unsigned l = strlen(m->path);
    _Bool k = kept(m->path); for(unsigned j = 0; j < MF_MAX && !k; j++) if(snap[j].used && strncmp(snap[j].path, m->path, l) == 0 && snap[j].path[l] == '/' && kept(snap[j].path)) k = 1;
    del[i] = !k; if(!k) { cnt++; if(S_ISREG(m->mode)) sz += m->size; } }
  _Bool cb = R(2); GCStatistics s = cb ? collectGarbageProgress(&M, w_repo(), progress, &token) : collectGarbage(&M, w_repo());
  for(unsigned i = 0; i < MF_MAX; i++) if(snap[i].used) {
    struct mf *m = mf_raw(snap[i].path); if(del[i]) OBL(!m, "unreferenced entries are deleted"); else OBL(m && m->ino == snap[i].ino && m->mods == 0 && m->size == snap[i].size, "referenced entries are kept"); }
  OBL(s.deleted_items_count == cnt, "number of deleted items"); OBL(s.deleted_items_total_size == sz, "size of deleted files"); OBL(mf_dirs == 0, "directories closed"); if(cb) OBL(ncalls <= nlimit || ncalls == 0, "limit of calls");
}
