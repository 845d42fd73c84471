/* An in-memory file system behind the interface of safe-wrappers.h, used by
   the native searches for failing inputs (never by the proofs).  It follows
   POSIX: symlinks are resolved, modifications update the times of the parent
   directory, chown clears set-id bits, streams read live content.  Every
   modification is logged and counted per entry. */
#include <string.h>
#include <regex.h>
#include <errno.h>
#include <sys/stat.h>
#ifndef MF_MAX
#define MF_MAX 96
#endif
#define MF_PATH 160
struct mf { char path[MF_PATH]; _Bool used; mode_t mode; uid_t uid; gid_t gid; time_t mtime; nb_u8 *data; nb_u64 size, cap; unsigned mods, born; nb_u64 ino; };
static struct mf mf_tab[MF_MAX]; static time_t mf_clock = 1000000; static nb_u64 mf_ops, mf_race_at = ~0ul; static unsigned mf_mods; static nb_u64 mf_ino;
static void (*mf_race)(void);
static _Bool mf_readonly; /* no modification allowed at all */
static void *MFD(void) { NB_ON_DIE; NB_STOP("file system error"); __builtin_unreachable(); }
static void mf_tick(void) { if(mf_ops++ == mf_race_at && mf_race) mf_race(); }
static struct mf *mf_raw(const char *p) { if(!*p) p = "/"; for(int i = 0; i < MF_MAX; i++) if(mf_tab[i].used && strcmp(mf_tab[i].path, p) == 0) return &mf_tab[i]; return 0; }
/* resolves p to the path of an entry (or of a missing last element) */
static _Bool mf_resolve(const char *p, _Bool follow, char *out, int depth)
{
  if(depth > 8) { errno = ELOOP; return 0; }
  char cur[MF_PATH * 2] = ""; const char *s = p;
  if(*s != '/') { errno = ENOENT; return 0; }
  for(;;) {
    while(*s == '/') s++;
    if(!*s) break;
    struct mf *d = mf_raw(cur[0] ? cur : "/"); if(!d) { errno = ENOENT; return 0; } if(!S_ISDIR(d->mode)) { errno = ENOTDIR; return 0; }
    unsigned l = strlen(cur); const char *e = s; while(*e && *e != '/') e++;
    if(e - s == 1 && s[0] == '.') { s = e; continue; }
    if(e - s == 2 && s[0] == '.' && s[1] == '.') { char *q = strrchr(cur, '/'); if(q) *q = 0; s = e; continue; }
    if(l + 1 + (e - s) + 1 > MF_PATH) { errno = ENAMETOOLONG; return 0; }
    cur[l] = '/'; memcpy(cur + l + 1, s, e - s); cur[l + 1 + (e - s)] = 0;
    _Bool last = *e == 0; { const char *q = e; while(*q == '/') q++; if(!*q && *e) follow = 1; last = !*q; }
    struct mf *x = mf_raw(cur);
    if(x && S_ISLNK(x->mode) && (!last || follow)) {
      char t[MF_PATH * 3]; if(x->data[0] == '/') strcpy(t, (char *)x->data); else { cur[l] = 0; strcpy(t, cur); strcat(t, "/"); strcat(t, (char *)x->data); }
      if(!last) strcat(t, e); if(strlen(t) >= MF_PATH) { errno = ENAMETOOLONG; return 0; }
      return mf_resolve(t, follow, out, depth + 1); }
    s = e; }
  strcpy(out, cur[0] ? cur : "/"); return 1;
}
static char mf_p[MF_PATH * 4];
static const char *mf_name(StringView v) { if(v.length >= MF_PATH) NB_STOP("long"); OBL(!(v.is_terminated && v.content[v.length]), "terminated view"); for(nb_u64 i = 0; i < v.length; i++) { OBL(v.content[i] != 0, "path without null-bytes"); mf_p[i] = v.content[i]; } mf_p[v.length] = 0; return mf_p; }
static struct mf *mf_get(const char *p, _Bool follow) { char o[MF_PATH * 2]; if(!mf_resolve(p, follow, o, 0)) return 0; struct mf *m = mf_raw(o); if(!m) errno = ENOENT; return m; }
static struct mf *mf_parent(struct mf *m) { char t[MF_PATH]; strcpy(t, m->path); char *q = strrchr(t, '/'); *q = 0; return mf_raw(t[0] ? t : "/"); }
static void mf_touch(struct mf *m) { if(m) { m->mtime = ++mf_clock; } }
static void mf_mod(struct mf *m) { OBL(!mf_readonly, "no modification of the file system"); m->mods++; mf_mods++; }
static struct mf *mf_new(const char *path, mode_t mode)
{
  int i = 0; while(i < MF_MAX && mf_tab[i].used) i++; if(i == MF_MAX) NB_STOP("file system full");
  struct mf *m = &mf_tab[i]; strcpy(m->path, path); m->used = 1; m->mode = mode; m->uid = m->gid = 0; m->mtime = ++mf_clock; m->data = 0; m->size = m->cap = 0; m->mods = 0; m->ino = ++mf_ino;
  if(path[1]) { struct mf *d = mf_parent(m); OBL(d && S_ISDIR(d->mode), "parent directory"); mf_touch(d); }
  return m;
}
static void mf_set(struct mf *m, const void *d, nb_u64 n) { if(n + 1 > m->cap) { m->data = realloc(m->data, n + 64); m->cap = n + 64; } memcpy(m->data, d, n); m->data[n] = 0; m->size = n; m->mtime = ++mf_clock; }
static void mf_add(struct mf *m, const void *d, nb_u64 n) { if(m->size + n + 1 > m->cap) { m->cap = 2 * (m->size + n) + 64; m->data = realloc(m->data, m->cap); } memcpy(m->data + m->size, d, n); m->size += n; m->data[m->size] = 0; m->mtime = ++mf_clock; }
static _Bool mf_haschild(struct mf *d) { unsigned l = strlen(d->path); if(l == 1) l = 0; for(int i = 0; i < MF_MAX; i++) if(mf_tab[i].used && strncmp(mf_tab[i].path, d->path, l) == 0 && mf_tab[i].path[l] == '/' && mf_tab[i].path[l + 1]) return 1; return 0; }
static void mf_del(struct mf *m) { mf_touch(mf_parent(m)); m->used = 0; m->mods++; }
/* ---- the interface ---- */
struct FileStream { struct mf *m; nb_u64 ino, pos; _Bool w, closed; };
void *sMalloc(size_t n) { OBL(n > 0, "allocation"); void *p = malloc(n); for(nb_u64 i = 0; i < n; i++) ((nb_u8 *)p)[i] = 0xA5; return p; }
static int mf_open;
FileStream *sFopenRead(StringView p)
{
  mf_tick(); struct mf *m = mf_get(mf_name(p), 1); if(!m || !S_ISREG(m->mode)) MFD();
  FileStream *s = malloc(sizeof *s); s->m = m; s->ino = m->ino; s->pos = 0; s->w = s->closed = 0; mf_open++; return s;
}
FileStream *sFopenWrite(StringView p)
{
  mf_tick(); char o[MF_PATH * 2]; if(!mf_resolve(mf_name(p), 1, o, 0)) MFD();
  struct mf *m = mf_raw(o); if(m && !S_ISREG(m->mode)) MFD();
  if(!m) { struct mf *d; char t[MF_PATH * 2]; strcpy(t, o); *strrchr(t, '/') = 0; d = mf_raw(t[0] ? t : "/"); if(!d || !S_ISDIR(d->mode)) MFD(); m = mf_new(o, S_IFREG | 0644); }
  mf_mod(m); mf_set(m, "", 0);
  FileStream *s = malloc(sizeof *s); s->m = m; s->ino = m->ino; s->pos = 0; s->w = 1; s->closed = 0; mf_open++; return s;
}
void sFread(void *d, size_t n, FileStream *s) { OBL(!s->closed && !s->w, "open stream"); mf_tick(); OBL(s->m->used && s->m->ino == s->ino, "file"); if(s->m->size < s->pos || n > s->m->size - s->pos) MFD(); memcpy(d, s->m->data ? s->m->data + s->pos : (nb_u8 *)"", n); s->pos += n; }
void sFwrite(const void *d, size_t n, FileStream *s) { OBL(!s->closed && s->w, "open stream"); mf_tick(); mf_mod(s->m); mf_add(s->m, d, n); }
bool fWrite(const void *d, size_t n, FileStream *s) { sFwrite(d, n, s); return 1; }
bool fTodisk(FileStream *s) { return 1; }
void fDatasync(StringView p) { }
bool sFbytesLeft(FileStream *s) { OBL(!s->closed && !s->w, "open stream"); mf_tick(); return s->pos < s->m->size; }
void sFclose(FileStream *s) { OBL(!s->closed, "open stream"); mf_open--; s->closed = 1; }
void fDestroy(FileStream *s) { sFclose(s); }
struct DirIterator { char d[MF_PATH]; unsigned n, i; char *names[MF_MAX]; char *last; _Bool closed; };
static int mf_dirs;
DirIterator *sDirOpen(StringView p)
{
  mf_tick(); struct mf *m = mf_get(mf_name(p), 1); if(!m || !S_ISDIR(m->mode)) MFD();
  DirIterator *d = malloc(sizeof *d); d->n = d->i = 0; d->last = 0; d->closed = 0; strcpy(d->d, mf_name(strStripTrailingSlashes(p))); mf_dirs++;
  unsigned l = strlen(m->path); if(l == 1) l = 0; unsigned off = (m->ino * 7 + mf_ops) % MF_MAX;
  for(unsigned k = 0; k < MF_MAX; k++) { struct mf *x = &mf_tab[(k + off) % MF_MAX]; if(x->used && strncmp(x->path, m->path, l) == 0 && x->path[l] == '/' && x->path[l + 1] && !strchr(x->path + l + 1, '/')) d->names[d->n++] = strdup(x->path + l + 1); }
  return d;
}
StringView sDirGetNext(DirIterator *d)
{
  OBL(!d->closed, "open directory"); mf_tick();
  if(d->last) { for(char *c = d->last; *c; c++) *c = '?'; d->last = 0; }
  if(d->i == d->n) return str("");
  char *r = malloc(strlen(d->d) + strlen(d->names[d->i]) + 2); strcpy(r, d->d); strcat(r, "/"); strcat(r, d->names[d->i++]); d->last = r; return str(r);
}
void sDirClose(DirIterator *d) { OBL(!d->closed, "open directory"); if(d->last) for(char *c = d->last; *c; c++) *c = '?'; d->closed = 1; mf_dirs--; }
bool sPathExists(StringView p) { mf_tick(); struct mf *m = mf_get(mf_name(p), 0); if(!m && errno != ENOENT) MFD(); return m != 0; }
static struct stat mf_stat(StringView p, _Bool f)
{
  mf_tick(); struct mf *m = mf_get(mf_name(p), f); if(!m) MFD(); struct stat s; memset(&s, 0, sizeof s);
  s.st_mode = m->mode; s.st_uid = m->uid; s.st_gid = m->gid; s.st_mtime = m->mtime; s.st_size = S_ISDIR(m->mode) ? 4096 : m->size; s.st_blksize = 16; s.st_ino = m->ino; s.st_nlink = 1; return s;
}
struct stat sStat(StringView p) { return mf_stat(p, 1); }
struct stat sLStat(StringView p) { return mf_stat(p, 0); }
static char *mf_fresh(StringView p) { static char o[MF_PATH * 2]; if(!mf_resolve(mf_name(p), 0, o, 0) || mf_raw(o)) MFD(); char t[MF_PATH * 2]; strcpy(t, o); *strrchr(t, '/') = 0; struct mf *d = mf_raw(t[0] ? t : "/"); if(!d || !S_ISDIR(d->mode)) MFD(); return o; }
void sMkdir(StringView p) { mf_tick(); struct mf *m = mf_new(mf_fresh(p), S_IFDIR | 0755); mf_mod(m); }
void sSymlink(StringView t, StringView p) { mf_tick(); OBL(!(t.is_terminated && t.content[t.length]), "target"); if(t.length == 0) MFD(); struct mf *m = mf_new(mf_fresh(p), S_IFLNK | 0777); mf_set(m, t.content, t.length); mf_mod(m); }
StringView sSymlinkReadTarget(StringView p, Allocator *a) { mf_tick(); struct mf *m = mf_get(mf_name(p), 0); if(!m || !S_ISLNK(m->mode)) MFD(); char *b = allocate(a, m->size + 1); memcpy(b, m->data, m->size); b[m->size] = 0; return str(b); }
void sRename(StringView a, StringView b)
{
  mf_tick(); struct mf *x = mf_get(mf_name(a), 0); if(!x || !S_ISREG(x->mode)) MFD(); char o[MF_PATH * 2]; if(!mf_resolve(mf_name(b), 0, o, 0)) MFD();
  struct mf *y = mf_raw(o); if(y && S_ISDIR(y->mode)) MFD(); if(y) { mf_mod(y); mf_del(y); }
  mf_mod(x); mf_touch(mf_parent(x)); strcpy(x->path, o); mf_touch(mf_parent(x));
}
static struct mf *mf_chg(StringView p, _Bool f) { mf_tick(); struct mf *m = mf_get(mf_name(p), f); if(!m) MFD(); mf_mod(m); return m; }
void sChmod(StringView p, mode_t mode) { struct mf *m = mf_chg(p, 1); m->mode = (m->mode & S_IFMT) | (mode & 07777); }
static void mf_chown(struct mf *m, uid_t u, gid_t g) { m->uid = u; m->gid = g; if(S_ISREG(m->mode)) m->mode &= ~(S_ISUID | (m->mode & S_IXGRP ? S_ISGID : 0)); }
void sChown(StringView p, uid_t u, gid_t g) { mf_chown(mf_chg(p, 1), u, g); }
void sLChown(StringView p, uid_t u, gid_t g) { mf_chown(mf_chg(p, 0), u, g); }
void sUtime(StringView p, time_t t) { struct mf *m = mf_chg(p, 1); m->mtime = t; }
void sRemove(StringView p) { struct mf *m = mf_chg(p, 0); if(S_ISDIR(m->mode) && mf_haschild(m)) MFD(); mf_del(m); }
static bool mf_rmif(StringView p, ShouldRemoveCallback *f, void *u)
{
  struct stat s = sLStat(p); _Bool needed = 0;
  if(S_ISDIR(s.st_mode)) { DirIterator *d = sDirOpen(p); for(StringView q = sDirGetNext(d); q.length; strSet(&q, sDirGetNext(d))) if(!mf_rmif(q, f, u)) needed = 1; sDirClose(d); }
  if(needed || !f(p, &s, u)) return 0; sRemove(p); return 1;
}
void sRemoveRecursivelyIf(StringView p, ShouldRemoveCallback f, void *u) { mf_rmif(p, f, u); }
static bool mf_true(StringView p, const struct stat *s, void *u) { return 1; }
void sRemoveRecursively(StringView p) { mf_rmif(p, mf_true, 0); }
StringView sGetCurrentDir(Allocator *a) { return strCopy(str("/"), a); }
time_t sTime(void) { return ++mf_clock; }
uint64_t sTimeMilliseconds(void) { return mf_clock * 1000ul; }
int sRand(void) { static unsigned x = 77; x = x * 1103515245 + 12345; return (x >> 8) & 0x7fffffff; }
FileContent sGetFilesContent(CR_Region *r, StringView p)
{
  mf_tick(); struct mf *m = mf_get(mf_name(p), 1); if(!m || !S_ISREG(m->mode)) MFD();
  FileContent c = { .content = malloc(m->size + 1), .size = m->size }; memcpy(c.content, m->data ? m->data : (nb_u8 *)"", m->size); return c;
}
const regex_t *sRegexCompile(CR_Region *r, StringView e, StringView f, size_t n) { regex_t *x = malloc(sizeof *x); if(regcomp(x, mf_name(e), REG_EXTENDED | REG_NOSUB)) MFD(); return x; }
bool sRegexIsMatching(const regex_t *x, StringView s) { return regexec(x, mf_name(s), 0, 0, 0) == 0; }
bool sIsTTY(FILE *f) { return 0; }
/* ---- growable memory ---- */
void *CR_EnsureCapacity(void *p, size_t n) { OBL(n > 0, "capacity"); nb_u64 *q = malloc(n + 16); nb_u64 o = p ? ((nb_u64 *)p)[-2] : 0; q[0] = o > n ? o : n; if(o > n) { q = realloc(q, o + 16); } memset(q + 2, 0xA5, q[0]); if(p) { memcpy(q + 2, p, o); memset(p, 0xDD, o); } return q + 2; }
void *CR_RegionAllocGrowable(CR_Region *r, size_t n) { return CR_EnsureCapacity(0, n); }
