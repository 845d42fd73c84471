/*NB-UNIT
{ "src": "search.c", "props": ["C15", "C24"],
  "targets": ["searchNew","searchGetNext"],
  "entries": ["n_search"],
  "mode": "N", "direct": 1, "nsecs": 20, "ncount": 80000,
  "nlink": ["str.c","safe-math.c","string-table.c","search-tree.c","third-party/SipHash/siphash.c","third-party/BLAKE2/blake2b.c"]
}
*/
//@POST
/* Complete searches of random file systems with random configurations
   against an independent recursive walk. */
static _Bool w_init, w_expect;
#define NB_ON_DIE do { if(w_init) NB_STOP("rejected"); OBL(w_expect, "error exit only for ambiguous rules and broken symlinks"); } while(0)
//@include world.h
struct ex { char path[MF_PATH]; const SearchNode *n; BackupPolicy pol; SearchResultType t; struct stat st; _Bool seen; };
static struct ex *E; static unsigned ne; static RegexList *ign; static _Bool hitI[64]; struct mt { SearchNode *n; unsigned t; }; static struct mt *M_; static unsigned nm;
static void ref_emit(const char *path, SearchNode *n, BackupPolicy pol);
static void child(char *o, const char *p, const char *n) { if(strlen(p) + strlen(n) + 2 > MF_PATH) NB_STOP("long"); sprintf(o, "%s/%s", strcmp(p, "/") == 0 ? "" : p, n); }
static void ref_dir(const char *path, SearchNode *n, BackupPolicy pol)
{
  char c[MF_PATH]; _Bool rx = 0; if(n) for(SearchNode *s = n->subnodes; s; s = s->next) rx |= s->regex != 0;
  if(n && n->policy == BPOL_none && !rx) { for(SearchNode *s = n->subnodes; s; s = s->next) { child(c, path, mf_name(s->name)); if(mf_get(c, 0)) ref_emit(c, s, s->policy); else if(errno != ENOENT) w_expect = 1; } return; }
  struct mf *d = mf_get(path, 1); if(!d || !S_ISDIR(d->mode)) { w_expect = 1; return; }
  unsigned l = strlen(d->path); if(l == 1) l = 0;
  for(int i = 0; i < MF_MAX; i++) {
    struct mf *x = &mf_tab[i]; if(!x->used || strncmp(x->path, d->path, l) != 0 || x->path[l] != '/' || !x->path[l + 1] || strchr(x->path + l + 1, '/')) continue;
    const char *nm_ = x->path + l + 1; SearchNode *hit = 0; unsigned k = 0; child(c, path, nm_);
    for(SearchNode *s = n ? n->subnodes : 0; s; s = s->next) if(s->regex ? regexec(s->regex, nm_, 0, 0, 0) == 0 : strcmp(nm_, strdup(mf_name(s->name))) == 0) { hit = s; k++; }
    if(k > 1) { w_expect = 1; continue; }
    if(k) { ref_emit(c, hit, hit->policy); continue; }
    if(pol == BPOL_none) continue;
    _Bool skip = 0; int q = 0; for(RegexList *r = ign; r; r = r->next, q++) if(regexec(r->regex, c, 0, 0, 0) == 0) { skip = 1; hitI[q] = 1; break; }
    if(!skip) ref_emit(c, 0, pol); }
}
static void ref_emit(const char *path, SearchNode *n, BackupPolicy pol)
{
  struct mf *m = mf_get(path, n && n->subnodes); if(!m) { w_expect = 1; return; }
  if(ne == 4000) NB_STOP("big"); struct ex *e = &E[ne++]; strcpy(e->path, path); e->n = n; e->pol = pol; e->seen = 0; memset(&e->st, 0, sizeof e->st); e->st = mf_stat(str(path), n && n->subnodes);
  e->t = S_ISREG(m->mode) ? SRT_regular_file : S_ISLNK(m->mode) ? SRT_symlink : S_ISDIR(m->mode) ? SRT_directory : SRT_other;
  if(n) { unsigned i = 0; while(i < nm && M_[i].n != n) i++; if(i == nm) { if(nm == 400) NB_STOP("big"); M_[nm].n = n; M_[nm++].t = 0; } M_[i].t |= e->t; }
  if(e->t == SRT_directory) { char p[MF_PATH]; strcpy(p, path); ref_dir(p, n, pol); }
}
static void check_nodes(SearchNode *n) { for(; n; n = n->next) { unsigned t = 0; for(unsigned i = 0; i < nm; i++) if(M_[i].n == n) t = M_[i].t; OBL((unsigned)n->search_match == t, "matches are recorded in the configuration entries"); check_nodes(n->subnodes); } }
void n_search(void)
{
  E = malloc(4000 * sizeof *E); M_ = malloc(400 * sizeof *M_); w_fs(); if(R(3) == 0) { char p[MF_PATH] = ""; unsigned n = 4 + R(14); while(n--) { strcat(p, R(3) ? "/a" : "/b"); if(!mf_raw(p)) { if(strrchr(p, '/') != p) { char q[MF_PATH]; strcpy(q, p); *strrchr(q, '/') = 0; if(!S_ISDIR(mf_raw(q)->mode)) break; } mf_new(p, S_IFDIR | 0755); } else if(!S_ISDIR(mf_raw(p)->mode)) break; if(R(3) == 0) w_create(p); } }
  w_cfg_regex = R(2) ? 6 : 3; w_config(); if(R(4) == 0) { char t[4096]; static const char *const pol[] = { "copy", "mirror", "track" }; sprintf(t, "[%s]\n/\n", pol[R(3)]); strcat(t, w_cfg); if(strlen(t) < 4000) strcpy(w_cfg, t); }
  w_init = 1; SearchNode *root = searchTreeParse(CR_RegionNew(), strUnterminated(w_cfg, strlen(w_cfg))); w_init = 0; ign = *root->ignore_expressions; memset(hitI, 0, sizeof hitI); nm = ne = 0;
  w_expect = 0; ref_dir("/", root, root->policy); if(w_expect) nb_native_cover("rejected"); mf_readonly = 1;
  SearchIterator *it = searchNew(root); char st[64][MF_PATH]; unsigned d = 0, n = 0; strcpy(st[0], "/");
  for(;;) {
    SearchResult s = searchGetNext(it);
    if(s.type == SRT_end_of_search) break;
    if(s.type == SRT_end_of_directory) { OBL(d > 0, "each directory is ended once"); d--; continue; }
    const char *p = strdup(mf_name(s.path)); unsigned l = strlen(st[d]); if(l == 1) l = 0; OBL(strncmp(p, st[d], l) == 0 && p[l] == '/' && !strchr(p + l + 1, '/'), "paths are reported between the start and the end of their directory");
    if(w_expect) { if(s.type == SRT_directory) { if(d == 63) NB_STOP("deep"); strcpy(st[++d], p); } continue; }
    unsigned i = 0; while(i < ne && strcmp(E[i].path, p) != 0) i++; OBL(i < ne, "only covered paths are reported"); struct ex *e = &E[i]; OBL(!e->seen, "each path is reported once"); e->seen = 1; n++;
    OBL(s.type == e->t, "type of the path"); OBL(s.node == e->n, "configuration entry of the path"); OBL(s.policy == e->pol, "policy of the path"); OBL(s.stats.st_ino == e->st.st_ino && s.stats.st_mode == e->st.st_mode && s.stats.st_size == e->st.st_size, "symlinks are only followed for configured parents");
    if(s.type == SRT_directory) { if(d == 63) NB_STOP("deep"); strcpy(st[++d], p); } }
  OBL(!w_expect, "ambiguous rules are an error"); OBL(d == 0, "every directory is ended"); OBL(n == ne, "every covered path is reported"); OBL(mf_dirs == 0, "directories are closed");
  check_nodes(root->subnodes); int q = 0; for(RegexList *r = ign; r; r = r->next, q++) OBL(r->has_matched == hitI[q], "matched ignore expressions are noted");
}
