/* Scenario generator shared by the native searches: a random file system, a
   random configuration, a repository kept in the in-memory file system. */
#define NB_MAX_ALLOCATORS 4000
#define NB_MAX_ATTACH 64
#define NB_ALLOC_DIE (1ul << 24)
//@include die.h
//@include sv.h
//@include alloc.h
#include "metadata.h"
#include "repository.h"
#include "safe-wrappers.h"
#include "search.h"
#include "search-tree.h"
#include "backup.h"
#include "backup-helpers.h"
#include "CRegion/alloc-growable.h"
//@include memfs.h
#include "/repo/third-party/BLAKE2/blake2.h"
static void w_hash(nb_u8 *o, const void *d, nb_u64 n) { blake2b_state s; blake2b_init(&s, 20); blake2b_update(&s, d, n); blake2b_final(&s, o, 20); }
static nb_u64 w_seed;
static unsigned R(unsigned n) { static nb_u64 x; if(!w_seed) { w_seed = 1; x = nd_u64() ^ (nd_u64() << 17) ^ (nd_u64() * 0x9E3779B97F4A7C15ul); if(!x) x = 88172645463325252ul; } x ^= x << 13; x ^= x >> 7; x ^= x << 17; nb_u64 v = x; v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ul; v ^= v >> 32; return v % n; }
/* ---- repository: stored files live in the file system under /R ---- */
static StringView w_repo(void) { static const char *const n[] = { "/R", "/R", "/R/", "/R//" }; return str(n[R(4)]); } /* as given by the user */
static void w_rel(char *b, const RegularFileInfo *f)
{
  static const char *x = "0123456789abcdef"; char *o = b;
  for(int i = 0; i < 20; i++) { if(i == 1) { *o++ = '/'; } *o++ = x[f->hash[i] >> 4]; *o++ = x[f->hash[i] & 15]; if(i == 1) { char c = o[-1]; o[-1] = '/'; *o++ = c; } }
  o += sprintf(o, "x%lxx%x", (unsigned long)f->size, f->slot);
}
static char *w_abs(const RegularFileInfo *f) { static char b[200]; strcpy(b, "/R/"); w_rel(b + 3, f); return b; }
static struct mf *w_stored(const RegularFileInfo *f) { return mf_raw(w_abs(f)); }
static _Bool w_is_repo(StringView p) { while(p.length > 1 && p.content[p.length - 1] == '/') strSet(&p, strUnterminated(p.content, p.length - 1)); return strIsEqual(p, str("/R")); }
static unsigned w_stores; static _Bool w_readonly_repo;
bool repoRegularFileExists(StringView r, const RegularFileInfo *f) { OBL(w_is_repo(r), "repository path"); mf_tick(); return w_stored(f) != 0; }
void repoBuildRegularFilePath(char **b, const RegularFileInfo *f) { *b = CR_EnsureCapacity(*b, 100); w_rel(*b, f); }
struct RepoReader { struct mf *m; nb_u64 ino, pos; _Bool closed; };
static int w_readers;
RepoReader *repoReaderOpenFile(StringView r, StringView s, const RegularFileInfo *f) { OBL(w_is_repo(r), "repository path"); mf_tick(); struct mf *m = mf_get(w_abs(f), 1); if(!m || !S_ISREG(m->mode)) MFD(); RepoReader *x = malloc(sizeof *x); x->m = m; x->ino = m->ino; x->pos = 0; x->closed = 0; w_readers++; return x; }
void repoReaderRead(void *d, size_t n, RepoReader *x) { OBL(!x->closed, "open reader"); mf_tick(); if(n > x->m->size - x->pos) MFD(); memcpy(d, x->m->data + x->pos, n); x->pos += n; }
void repoReaderClose(RepoReader *x) { OBL(!x->closed, "open reader"); x->closed = 1; w_readers--; }
struct RepoWriter { char final[200]; _Bool closed; nb_u8 *d; nb_u64 n; nb_u64 size; _Bool raw; RegularFileInfo f; };
static int w_writers;
static RepoWriter *w_writer(void) { RepoWriter *x = malloc(sizeof *x); x->closed = 0; x->d = malloc(1 << 20); x->n = 0; w_writers++; return x; }
RepoWriter *repoWriterOpenFile(StringView r, StringView t, StringView s, const RegularFileInfo *f)
{
  OBL(w_is_repo(r), "repository path"); mf_tick(); OBL(!w_readonly_repo, "repository is not modified"); OBL(!w_stored(f), "existing stored files are never overwritten");
  RepoWriter *x = w_writer(); strcpy(x->final, w_abs(f)); x->size = f->size; x->raw = 0; x->f = *f; return x;
}
RepoWriter *repoWriterOpenRaw(StringView r, StringView t, StringView s, StringView fp) { OBL(!w_readonly_repo, "repository is not modified"); RepoWriter *x = w_writer(); strcpy(x->final, mf_name(fp)); x->raw = 1; return x; }
void repoWriterWrite(const void *d, size_t n, RepoWriter *x) { OBL(!x->closed, "open writer"); mf_tick(); if(x->n + n > (1 << 20)) NB_STOP("big"); memcpy(x->d + x->n, d, n); x->n += n; }
static struct mf *w_put(const char *p, const void *d, nb_u64 n)
{
  char t[200]; for(unsigned i = 1; p[i]; i++) if(p[i] == '/') { memcpy(t, p, i); t[i] = 0; if(!mf_raw(t)) mf_new(t, S_IFDIR | 0755); }
  struct mf *m = mf_raw(p); if(!m) m = mf_new(p, S_IFREG | 0644); mf_set(m, d, n); return m;
}
void repoWriterClose(RepoWriter *x)
{
  OBL(!x->closed, "open writer"); x->closed = 1; w_writers--;
  if(!x->raw) {
    OBL(x->n == x->size, "stored file is complete"); w_stores++;
    RegularFileInfo f = x->f; for(unsigned s = 0; s < 256; s++) { f.slot = s; struct mf *m = w_stored(&f); if(m) OBL(!(m->size == x->n && memcmp(m->data, x->d, x->n) == 0), "identical content is stored only once"); else { OBL(s == x->f.slot, "next free slot"); break; } } }
  w_put(x->final, x->d, x->n);
}
void repoLock(CR_Region *r, StringView p, RepoLockHint h) { }
void warnNodeMatches(const SearchNode *n, StringView s) { }
/* ---- random file system below / ---- */
static const char *const w_names[] = { "a", "b", "c", "d.x", ".e" };
static unsigned w_depth(const char *p) { unsigned d = 0; for(; *p; p++) d += *p == '/'; return d; }
static void w_content(struct mf *m)
{
  static const unsigned sz[] = { 0, 1, 5, 19, 20, 21, 32, 33, 47, 48, 100 }; nb_u8 b[128]; unsigned n = sz[R(11)], k = R(3);
  for(unsigned i = 0; i < n; i++) b[i] = 'A' + (k == 0 ? 0 : k == 1 ? i % 7 : R(26)); if(n && R(3) == 0) b[R(n)] = R(256); mf_set(m, b, n);
}
static void w_attrs(struct mf *m) { m->uid = R(3); m->gid = R(3); if(!S_ISLNK(m->mode)) m->mode = (m->mode & S_IFMT) | (R(4) ? 0644 : R(2) ? 04755 : R(010000)); m->mtime = 500 + R(5); }
static unsigned w_clutter = 10; /* one in w_clutter entries is neither file, symlink nor directory */
static void w_rmtree(struct mf *m) { char p[MF_PATH]; strcpy(p, m->path); unsigned l = strlen(p); for(int i = 0; i < MF_MAX; i++) if(mf_tab[i].used && strncmp(mf_tab[i].path, p, l) == 0 && (mf_tab[i].path[l] == 0 || mf_tab[i].path[l] == '/')) mf_tab[i].used = 0; struct mf *d = mf_parent(m); mf_touch(d); }
static void w_create(const char *dir)
{
  char p[MF_PATH]; unsigned l = strlen(dir); if(l == 1) l = 0; memcpy(p, dir, l); p[l] = '/'; strcpy(p + l + 1, w_names[R(5)]); if(mf_raw(p)) return;
  unsigned t = R(w_clutter); struct mf *m = mf_new(p, t == 0 ? S_IFIFO : t < 3 ? S_IFLNK | 0777 : t < 6 ? S_IFDIR : S_IFREG);
  if(S_ISREG(m->mode)) w_content(m); if(S_ISLNK(m->mode)) { static const char *const tg[] = { "/a", "b", "/nowhere", "../c", "/d.x", "xyz" }; const char *t = tg[R(6)]; mf_set(m, t, strlen(t)); }
  w_attrs(m);
}
static struct mf *w_pick(_Bool dir) { for(int k = 0; k < 60; k++) { struct mf *m = &mf_tab[R(MF_MAX)]; if(m->used && strncmp(m->path, "/R", 2) != 0 && (!dir || S_ISDIR(m->mode))) return m; } return mf_raw("/"); }
static void w_fs(void) { mf_new("/", S_IFDIR | 0755); mf_new("/R", S_IFDIR | 0755); unsigned n = 2 + R(14); while(n--) { struct mf *d = w_pick(1); if(w_depth(d->path) < 4) w_create(d->path); } }
static void w_mutate(void)
{
  unsigned n = R(7);
  while(n--) {
    unsigned w = R(8); struct mf *m = w_pick(w == 0); _Bool root = !m->path[1];
    if(w == 0) { if(w_depth(m->path) < 4) w_create(m->path); }
    else if(root) continue;
    else if(w == 1) w_rmtree(m);
    else if(w == 2) { time_t t = m->mtime; if(S_ISREG(m->mode)) w_content(m); if(R(4) == 0) m->mtime = t; }
    else if(w == 3) { m->uid = R(3); } else if(w == 4) { if(!S_ISLNK(m->mode)) m->mode ^= 1 << R(12); } else if(w == 5) { m->mtime = 400 + R(300); }
    else if(w == 6) { char p[MF_PATH]; strcpy(p, m->path); struct mf *d = mf_parent(m); char dp[MF_PATH]; strcpy(dp, d->path); w_rmtree(m); for(int k = 0; k < 3; k++) w_create(dp); }
    else if(S_ISREG(m->mode) && m->size) { time_t t = m->mtime; m->data[R(m->size)] ^= 1 << R(8); m->mtime = R(2) ? t : ++mf_clock; }
    else if(S_ISLNK(m->mode)) { mf_set(m, "/zzz", 1 + R(4)); } }
}
/* ---- random configuration ---- */
static char w_cfg[4096]; static unsigned w_cfg_regex = 6;
static void w_path(char *o)
{
  unsigned d = 1 + R(3);
  while(d--) { *o++ = '/'; if(R(w_cfg_regex) == 0) { static const char *const rx[] = { "/^[ab]$", "/c", "/^\\.", "/x$" }; o += sprintf(o, "%s", rx[R(4)]); } else o += sprintf(o, "%s", w_names[R(5)]); }
  if(R(8) == 0) *o++ = '/'; *o = 0;
}
static void w_config(void)
{
  char *o = w_cfg; unsigned n = 1 + R(3); static const char *const pol[] = { "copy", "mirror", "track" };
  while(n--) { o += sprintf(o, "[%s]\n", pol[R(3)]); unsigned k = R(3); while(k--) { w_path(o); o += strlen(o); *o++ = '\n'; } }
  if(R(3) == 0) { static const char *const ig[] = { "/b$", "^/a/c", "\\.x", "/a/" }; o += sprintf(o, "[ignore]\n%s\n", ig[R(4)]); }
  *o = 0;
}
static void w_config_mutate(void)
{
  unsigned w = R(6);
  if(w == 0) w_config();
  else if(w < 3) { /* another policy for one section */ static const char *const pol[] = { "[copy]", "[mirror]", "[track]" }; char t[4096]; char *p = w_cfg; unsigned k = 0; for(char *q = w_cfg; (q = strchr(q, '[')); q++) if(R(++k) == 0) p = q; if(*p == '[' && p[1] != 'i') { char *e = strchr(p, ']'); strcpy(t, e + 1); strcpy(p, pol[R(3)]); strcat(p, t); } }
  else if(w == 3) { char t[100]; w_path(t); strcat(w_cfg, "[track]\n"); strcat(w_cfg, t); strcat(w_cfg, "\n"); }
}
/* ---- helpers on metadata ---- */
static PathNode *w_find(PathNode *l, StringView p) { for(; l; l = l->next) { if(strIsEqual(l->path, p)) return l; if(strIsParentPath(l->path, p)) { PathNode *x = w_find(l->subnodes, p); if(x) return x; } } return 0; }
static _Bool w_same_state(const PathState *a, const PathState *b, _Bool hash)
{
  if(a->type != b->type) return 0; if(a->type == PST_non_existing) return 1; if(a->uid != b->uid || a->gid != b->gid) return 0;
  if(a->type == PST_symlink) return strIsEqual(a->metadata.symlink_target, b->metadata.symlink_target);
  if(a->type == PST_directory) return a->metadata.directory_info.permission_bits == b->metadata.directory_info.permission_bits && a->metadata.directory_info.modification_time == b->metadata.directory_info.modification_time;
  const RegularFileInfo *f = &a->metadata.file_info, *g = &b->metadata.file_info;
  if(f->permission_bits != g->permission_bits || f->modification_time != g->modification_time || f->size != g->size) return 0;
  return !hash || (memcmp(f->hash, g->hash, f->size < 20 ? f->size : 20) == 0 && (f->size <= 20 || f->slot == g->slot));
}
/* content of a recorded regular file */
static const nb_u8 *w_state_content(const RegularFileInfo *f) { if(f->size <= 20) return f->hash; struct mf *m = w_stored(f); return m && m->size == f->size ? m->data : 0; }
static void w_reindex(Metadata *m, PathNode *l) { for(; l; l = l->next) w_reindex(m, l->subnodes); }
