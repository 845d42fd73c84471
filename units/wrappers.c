/*NB-UNIT
{ "src": "safe-wrappers.c", "props": ["C21"],
  "targets": ["sMkdir","sChmod","sChown","sLChown","sUtime","sRemove","sStat","sLStat","sPathExists","fDatasync","sRename","sSymlink","sSymlinkReadTarget",
     "sFopenRead","sFopenWrite","sFread","sFwrite","fWrite","fTodisk","sFclose","fDestroy","sFbytesLeft","sGetFilesContent","sDirOpen","sDirGetNext","sDirClose","sTime","sIsTTY"],
  "entries": ["h_stat","h_attr","h_mkdir","h_remove","h_datasync","h_rename","h_symlink","h_readlink","h_write","h_read","h_content","h_dir","h_misc"],
  "link": ["str.c", "safe-math.c"], "bunwind": 6, "timeout": 280,
  "entry_props": {"h_stat": ["C21", "C06", "C07", "C10", "C13", "C15", "C22", "C05", "C12"], "h_attr": ["C21", "C11"], "h_mkdir": ["C21", "C03", "C11"], "h_remove": ["C21", "C11", "C22", "C12"], "h_datasync": ["C21", "C03"], "h_rename": ["C21", "C03"], "h_symlink": ["C21", "C11"], "h_readlink": ["C21", "C07", "C08"], "h_write": ["C21", "C03", "C11", "C01", "C06"], "h_read": ["C21", "C06", "C07", "C13"], "h_content": ["C21", "C02", "C14", "C01"], "h_dir": ["C21", "C12", "C15", "C22"], "h_misc": ["C21"]},
  "nocut": ["removeRecursivelyIf", "sGetCurrentDir", "sReadLine"],
  "state": ["calls","failed","done","entries","dots"],
  "rename_p": ["sDirGetNext@strAppendPath","*@strStripTrailingSlashes"],
  "gen": {"struct dirent *": "nb_any_dirent()"},
  "cands": ["G.entries <= 1"],
  "nobody_ok": [],
  "assumes": ["POSIX/ISO C functions behave as specified: they either perform exactly the requested operation and report success or report failure (stubs in units/wrappers.c)",
     "allocation contracts of lib/alloc.h (proved for C23)"]
}
*/
//@PRE
struct nb_G { nb_u64 calls; _Bool failed; _Bool done; nb_u64 entries; _Bool dots; };
//@MID
extern struct nb_G G;
extern struct dirent nb_dirents[2];
#define nb_any_dirent() (nd_bool() ? &nb_dirents[0] : (struct dirent *)0)
//@POST
//@include die.h
struct nb_G G;
static nb_u64 nb_i;
#ifdef NB_MODE_P
#define MAXLEN (1ul << 32)
#else
#define MAXLEN 3
#endif
//@include mem.h
//@include alloc.h
static int nb_errno_v;
int *__errno_location(void) { return &nb_errno_v; }

/* ---- contract stubs of the operating system ---- */
enum { OP_NONE, OP_MKDIR, OP_CHMOD, OP_CHOWN, OP_LCHOWN, OP_UTIME, OP_REMOVE, OP_STAT, OP_LSTAT, OP_OPEN, OP_RENAME, OP_SYMLINK, OP_READLINK, OP_FOPEN_R, OP_FOPEN_W, OP_OPENDIR };
/* contract of strStripTrailingSlashes() as proved in units/str.c */
static StringView X_dir; static nb_u64 X_strip;
static void nb_strip_of(StringView p)
{
#ifdef NB_MODE_P
  X_strip = nd_le(p.length);
  ASSUME(X_strip == 0 || p.content[X_strip - 1] != '/');
  if(nb_i >= X_strip && nb_i < p.length) ASSUME(p.content[nb_i] == '/');
#else
  X_strip = p.length; while(X_strip && p.content[X_strip - 1] == '/') X_strip--;
#endif
}
static StringView NBC_strStripTrailingSlashes(StringView v)
{
  OBL(v.content == X_dir.content && v.length == X_dir.length, "path of the directory is stripped");
  return (StringView){ .content = v.content, .length = X_strip, .is_terminated = v.is_terminated && X_strip == v.length };
}
static int X_op; static StringView X_p1, X_p2; static nb_u64 X_a, X_b;
static _Bool X_lenient;
static void nb_check_path(const char *p, StringView v)
{
  OBL(p != 0 && p[v.length] == 0, "terminated path of the right length");
  if(nb_i < v.length) OBL(p[nb_i] == v.content[nb_i], "path is passed on unchanged");
}
static int nb_op(int op, const char *p1, const char *p2, nb_u64 a, nb_u64 b)
{
  G.calls++;
  OBL(op == X_op || (X_lenient && (op == OP_STAT || op == OP_FOPEN_R)), "the requested operation, nothing else");
  nb_check_path(p1, X_p1);
  if(p2) nb_check_path(p2, X_p2);
  OBL(a == X_a && b == X_b, "operation arguments passed on unchanged");
  if(nd_bool()) { G.failed = 1; nb_may_die = 1; nb_errno_v = nd_int(); ASSUME(nb_errno_v != 0); return -1; }
  G.done = 1;
  return 0;
}
int mkdir(const char *p, mode_t m) { return nb_op(OP_MKDIR, p, 0, m, 0); }
int chmod(const char *p, mode_t m) { return nb_op(OP_CHMOD, p, 0, m, 0); }
int chown(const char *p, uid_t u, gid_t g) { return nb_op(OP_CHOWN, p, 0, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { return nb_op(OP_LCHOWN, p, 0, u, g); }
int utime(const char *p, const struct utimbuf *b) { return nb_op(OP_UTIME, p, 0, b->modtime, b->modtime == b->actime || 1); }
int remove(const char *p) { return nb_op(OP_REMOVE, p, 0, 0, 0); }
int rename(const char *a, const char *b) { return nb_op(OP_RENAME, a, b, 0, 0); }
int symlink(const char *a, const char *b) { return nb_op(OP_SYMLINK, a, b, 0, 0); }
static struct stat X_stat;
int stat(const char *p, struct stat *s) { int r = nb_op(OP_STAT, p, 0, 0, 0); if(r == 0) *s = X_stat; return r; }
int lstat(const char *p, struct stat *s) { int r = nb_op(OP_LSTAT, p, 0, 0, 0); if(r == 0) *s = X_stat; return r; }
/* descriptors and streams */
static _Bool fd_open, fd_synced, fd_closed;
int open(const char *p, int flags, ...) { int r = nb_op(OP_OPEN, p, 0, 0, 0); if(r) return -1; fd_open = 1; return 5; }
static FILE nb_file; static _Bool f_open, f_flushed, f_synced, f_closed; static nb_u64 f_written, f_read, f_size; static _Bool f_err, f_eof; static nb_u8 f_watch; static nb_u64 f_unget; static _Bool f_peeked;
int fdatasync(int fd)
{
  OBL(fd == 5 || fd == 7, "sync of the right descriptor");
  if(fd == 5) OBL(fd_open && !fd_closed, "sync of an open descriptor"); else OBL(f_open && !f_closed, "sync of an open stream");
  if(nd_bool()) { nb_may_die = 1; G.failed = 1; return -1; }
  if(fd == 5) fd_synced = 1; else { OBL(f_flushed, "buffers are flushed before syncing"); f_synced = 1; }
  return 0;
}
int fsync(int fd) { return fdatasync(fd); }
int close(int fd) { OBL(fd == 5 && fd_open && !fd_closed, "close once"); fd_closed = 1; if(nd_bool()) { nb_may_die = 1; G.failed = 1; return -1; } return 0; }
FILE *fopen(const char *p, const char *mode)
{
  OBL(mode[0] == 'r' || mode[0] == 'w', "mode"); OBL(mode[1] == 'b' && mode[2] == 0 || mode[1] == 0, "mode");
  if(nb_op(mode[0] == 'r' ? OP_FOPEN_R : OP_FOPEN_W, p, 0, 0, 0)) return 0;
  f_open = 1; return &nb_file;
}
int fileno(FILE *f) { OBL(f == &nb_file && f_open && !f_closed, "open stream"); if(nd_bool()) { nb_may_die = 1; G.failed = 1; return -1; } return 7; }
int fflush(FILE *f) { OBL(f == &nb_file && f_open && !f_closed, "open stream"); if(nd_bool()) { nb_may_die = 1; G.failed = 1; return -1; } f_flushed = 1; return 0; }
int fclose(FILE *f) { OBL(f == &nb_file && f_open && !f_closed, "stream closed once"); f_closed = 1; if(nd_bool()) { nb_may_die = 1; G.failed = 1; return -1; } return 0; }
static const void *X_ptr; static nb_u64 X_size;
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
  OBL(f == &nb_file && f_open && !f_closed, "open stream");
  OBL(p == X_ptr && sz * n == X_size && (sz == 1 || n == 1), "whole data is written");
  f_flushed = 0;
  if(nd_bool() && n > 0) { nb_may_die = 1; G.failed = 1; return nd_le(n - 1); }
  f_written += n * sz;
  return n;
}
size_t fread(void *p, size_t sz, size_t n, FILE *f)
{
  OBL(f == &nb_file && f_open && !f_closed, "open stream");
  OBL(sz == 1, "byte-wise read");
#ifdef NB_MODE_P
  OBL(n == 0 || __CPROVER_w_ok(p, n), "read into valid memory");
  if(n > 0) __CPROVER_havoc_slice(p, n);
#else
  for(nb_u64 i = 0; i < n; i++) ((nb_u8 *)p)[i] = nd_u8();
#endif
  nb_u64 left = f_size - f_read;
  if(n > 0 && nd_bool()) { f_err = 1; nb_may_die = 1; G.failed = 1; nb_u64 k = nd_le(n - 1); ASSUME(k <= left); f_read += k; return k; }
  if(n > left) { f_eof = 1; nb_may_die = 1; G.failed = 1; f_read += left; return left; }
  if(nb_i >= f_read && nb_i - f_read < n) ((nb_u8 *)p)[nb_i - f_read] = f_watch;
  f_read += n;
  return n;
}
int feof(FILE *f) { return f_eof; }
int ferror(FILE *f) { return f_err; }
static int f_last = -2;
int fgetc(FILE *f)
{
  OBL(f == &nb_file && f_open && !f_closed, "open stream");
  if(nd_bool()) { G.failed = 1; nb_may_die = 1; nb_errno_v = nd_int(); ASSUME(nb_errno_v != 0 && nb_errno_v != 9); f_last = -1; return -1; }
  if(f_read >= f_size) { f_last = -1; f_eof = 1; return -1; }
  f_last = nd_u8(); if(nb_i == f_read) f_last = f_watch;
  f_read++; return f_last;
}
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f)
{
  OBL(c == f_last, "pushed back what was read");
  if(c == -1) return -1;
  if(nd_bool()) { G.failed = 1; nb_may_die = 1; return -1; }
  f_read--; f_eof = 0; return c;
}
/* ---- harnesses ---- */
static char *nb_bytes(nb_u64 n)
{
  char *p = malloc(n + 1);
  ASSUME(p != 0);
#ifndef NB_MODE_P
  for(nb_u64 i = 0; i < n; i++) { nb_u8 c = nd_u8(); p[i] = c ? (char)c : 'a'; }
#endif
  return p;
}
static StringView nb_view(void)
{
  nb_u64 len = nd_le(MAXLEN); _Bool term = nd_bool();
  char *p = nb_bytes(len);
  if(term) p[len] = 0;
#ifdef NB_MODE_P
  if(nb_i < len) ASSUME(p[nb_i] != 0);
#endif
  return (StringView){ .content = p, .length = len, .is_terminated = term };
}
static void expect(int op, StringView p1, nb_u64 a, nb_u64 b) { X_op = op; strSet(&X_p1, p1); X_a = a; X_b = b; }
static void init(void) { nb_i = nd_le(MAXLEN);
#ifdef NB_MODE_P
 nb_watch = nb_i;
#endif
  nb_errno_v = nd_int(); nb_may_die = 0; G.calls = 0; G.failed = 0; G.done = 0;
}
void h_mkdir(void)
{
  init();
  StringView p = nb_view();
  expect(OP_MKDIR, p, 0755, 0); sMkdir(p); COVER("mkdir"); OBL(G.done && G.calls == 1, "directory created");
  OBL(IMPLIES(G.failed, X_op == OP_LSTAT), "a failed operation never returns normally");
}
void h_attr(void)
{
  init();
  StringView p = nb_view();
  nb_u64 a = nd_u64(), b = nd_u64();
  switch(nd_le(3)) {
  case 0: expect(OP_CHMOD, p, (mode_t)a, 0); sChmod(p, (mode_t)a); COVER("chmod"); OBL(G.done && G.calls == 1, "permissions changed"); break;
  case 1: expect(OP_CHOWN, p, (uid_t)a, (gid_t)b); sChown(p, (uid_t)a, (gid_t)b); COVER("chown"); OBL(G.done && G.calls == 1, "owner changed"); break;
  case 2: expect(OP_LCHOWN, p, (uid_t)a, (gid_t)b); sLChown(p, (uid_t)a, (gid_t)b); COVER("lchown"); OBL(G.done && G.calls == 1, "owner of the link changed"); break;
  case 3: expect(OP_UTIME, p, a, 1); sUtime(p, (time_t)a); COVER("utime"); OBL(G.done && G.calls == 1, "timestamp changed"); break;
  }
  OBL(IMPLIES(G.failed, X_op == OP_LSTAT), "a failed operation never returns normally");
}
void h_remove(void)
{
  init();
  StringView p = nb_view();
  expect(OP_REMOVE, p, 0, 0); sRemove(p); COVER("remove"); OBL(G.done && G.calls == 1, "removed");
  OBL(IMPLIES(G.failed, X_op == OP_LSTAT), "a failed operation never returns normally");
}
void h_stat(void)
{
  init();
  StringView p = nb_view();
  X_stat.st_mode = nd_u32(); X_stat.st_size = (off_t)(nd_u64() >> 1); X_stat.st_mtime = (time_t)nd_u64(); X_stat.st_uid = nd_u32(); X_stat.st_gid = nd_u32();
  switch(nd_le(2)) {
  case 0: { expect(OP_STAT, p, 0, 0); struct stat s = sStat(p); COVER("stat"); OBL(G.done && G.calls == 1 && s.st_mode == X_stat.st_mode && s.st_size == X_stat.st_size && s.st_mtime == X_stat.st_mtime && s.st_uid == X_stat.st_uid && s.st_gid == X_stat.st_gid, "file information is returned"); } break;
  case 1: { expect(OP_LSTAT, p, 0, 0); struct stat s = sLStat(p); COVER("lstat"); OBL(G.done && G.calls == 1 && s.st_mode == X_stat.st_mode && s.st_size == X_stat.st_size && s.st_mtime == X_stat.st_mtime && s.st_uid == X_stat.st_uid && s.st_gid == X_stat.st_gid, "file information of the link itself is returned"); } break;
  case 2: { expect(OP_LSTAT, p, 0, 0); _Bool r = sPathExists(p); COVER("exists");
      OBL(G.calls == 1, "looked up once"); OBL(IMPLIES(r, G.done), "existing only if it was found");
      OBL(IMPLIES(!r, G.failed), "missing only if not found"); } break;
  }
  OBL(IMPLIES(G.failed, X_op == OP_LSTAT), "a failed operation never returns normally");
}
void h_datasync(void)
{
  init();
  StringView p = nb_view();
  expect(OP_OPEN, p, 0, 0); fDatasync(p); COVER("datasync"); OBL(G.done && fd_synced && fd_closed && !G.failed, "path synced");
  OBL(IMPLIES(G.failed, X_op == OP_LSTAT), "a failed operation never returns normally");
}
void h_rename(void)
{
  init();
  StringView p = nb_view(), q = nb_view();
  strSet(&X_p2, q);
  expect(OP_RENAME, p, 0, 0); sRename(p, q); COVER("rename");
  OBL(G.done && G.calls == 1 && !G.failed, "performed once with both paths");
}
void h_symlink(void)
{
  init();
  StringView p = nb_view(), q = nb_view();
  strSet(&X_p2, q);
  expect(OP_SYMLINK, p, 0, 0); sSymlink(p, q); COVER("symlink");
  OBL(G.done && G.calls == 1 && !G.failed, "performed once with both paths");
}
/* readlink: the target may change between lstat() and readlink() */
static nb_u64 l_len; static _Bool l_fail; static nb_u8 l_watch;
ssize_t readlink(const char *p, char *buf, size_t cap)
{
  nb_check_path(p, X_p1);
  if(nd_bool()) { nb_may_die = 1; l_fail = 1; return -1; }
  nb_u64 n = l_len < cap ? l_len : cap;
#ifdef NB_MODE_P
  OBL(__CPROVER_w_ok(buf, n), "link target fits");
  __CPROVER_havoc_slice(buf, n);
  if(n > 0) ASSUME(buf[0] != 0);
#else
  for(nb_u64 i = 0; i < n; i++) buf[i] = 'a' + (nd_u8() % 20);
#endif
  if(nb_i < n) buf[nb_i] = l_watch;
  return n;
}
nb_u64 nb_strlen_min;
#ifdef NB_MODE_P
/* strlen for a string of unknown length: the first terminator */
static nb_u64 nb_strlen_known;
size_t strlen(const char *s) { if(s[0] == 0) return 0; nb_u64 n = nb_strlen_known; OBL(s[n] == 0, "strlen: terminated string"); if(nb_i < n) ASSUME(s[nb_i] != 0); return n; }
#endif
void h_readlink(void)
{
  init();
  StringView p = nb_view();
  expect(OP_LSTAT, p, 0, 0);
  X_stat.st_size = nd_le(MAXLEN);
  l_len = nd_le(MAXLEN); l_watch = 'a' + (nd_u8() % 20);
#ifdef NB_MODE_P
  nb_strlen_known = l_len;
#endif
  _Bool same = l_len == (nb_u64)X_stat.st_size;
  nb_may_die = !same;
  static struct Allocator al;
  StringView t = sSymlinkReadTarget(p, &al);
  COVER("read link");
  OBL(same && !G.failed && !l_fail, "a link that changed while reading is an error");
  OBL(t.is_terminated && t.length == l_len, "whole target");
  if(nb_i < l_len) OBL((nb_u8)t.content[nb_i] == l_watch, "target bytes");
}
void h_write(void)
{
  init();
  StringView p = nb_view();
  expect(OP_FOPEN_W, p, 0, 0);
  FileStream *s = sFopenWrite(p);
  COVER("opened for writing");
  OBL(G.done && f_open, "opened");
  nb_u64 n = nd_le(1000); char *buf = malloc(n + 1); ASSUME(buf != 0);
  X_ptr = buf; X_size = n;
  if(nd_bool()) { sFwrite(buf, n, s); OBL(f_written == n && !G.failed, "everything written or error exit"); COVER("written"); }
  else { _Bool ok = fWrite(buf, n, s); OBL(ok == !G.failed && IMPLIES(ok, f_written == n), "write failures are reported"); COVER("tried to write"); if(!ok) { fDestroy(s); OBL(f_closed, "closed"); return; } }
  if(nd_bool()) {
    _Bool ok = fTodisk(s);
    OBL(IMPLIES(ok, f_flushed && f_synced && !G.failed), "reported as stored only after flushing and syncing");
    OBL(IMPLIES(!G.failed, ok), "success is reported");
    COVER("synced");
    if(!ok) return;
  }
  if(nd_bool()) { _Bool old = G.failed; sFclose(s); OBL(f_closed && !G.failed, "closed without error"); COVER("closed"); }
  else { int e = nb_errno_v; fDestroy(s); OBL(f_closed, "closed"); OBL(nb_errno_v == e, "errno is kept"); COVER("destroyed"); }
}
void h_read(void)
{
  init();
  StringView p = nb_view();
  expect(OP_FOPEN_R, p, 0, 0);
  f_size = nd_le(MAXLEN); f_watch = nd_u8();
  FileStream *s = sFopenRead(p);
  COVER("opened for reading");
  nb_u64 n = nd_le(MAXLEN); nb_u8 *buf = malloc(n + 1); ASSUME(buf != 0);
  sFread(buf, n, s);
  COVER("read");
  OBL(!G.failed && f_read == n && n <= f_size, "a short read never returns");
  if(nb_i < n) OBL(buf[nb_i] == f_watch, "bytes of the file in order");
  int e = nb_errno_v;
  _Bool left = sFbytesLeft(s);
  COVER("checked for more");
  OBL(!G.failed && left == (n < f_size) && f_read == n, "tells whether bytes are left and keeps the position");
  OBL(nb_errno_v == e, "errno is kept");
  sFclose(s);
  OBL(f_closed && !G.failed, "closed"); COVER("closed");
}
static _Bool grown;
void h_content(void)
{
  init();
  StringView p = nb_view();
  X_op = OP_STAT; strSet(&X_p1, p); X_a = 0; X_b = 0;
  X_stat.st_mode = nd_u32(); X_stat.st_size = (off_t)nd_le(MAXLEN);
  f_size = nd_le(MAXLEN); f_watch = nd_u8();
  _Bool reg = (X_stat.st_mode & 0170000) == 0100000;
  nb_may_die = !reg || f_size != (nb_u64)X_stat.st_size;
  X_lenient = 1;
  FileContent c = sGetFilesContent(CR_RegionNew(), p);
  COVER("content loaded");
  OBL(reg && !G.failed, "only regular files");
  OBL(c.size == (nb_u64)X_stat.st_size && IMPLIES(c.size > 0, f_size == c.size && f_closed), "a file that changed while reading is an error");
  if(nb_i < c.size) OBL((nb_u8)c.content[nb_i] == f_watch, "bytes of the file");
}
#ifdef NB_MODE_P
//@include appendpath.h
#endif
struct dirent nb_dirents[2];
static _Bool d_open, d_closed, d_err, d_end; static DIR *nb_dirp = (DIR *)&nb_dirents[1]; static nb_u64 d_real;
DIR *opendir(const char *p) { if(nb_op(OP_OPENDIR, p, 0, 0, 0)) return 0; d_open = 1; return nb_dirp; }
int closedir(DIR *d) { OBL(d == nb_dirp && d_open && !d_closed, "directory closed once"); d_closed = 1; if(nd_bool()) { G.failed = 1; nb_may_die = 1; return -1; } return 0; }
struct dirent *readdir(DIR *d)
{
  OBL(d == nb_dirp && d_open && !d_closed, "open directory");
  OBL(nb_errno_v == 0, "errno reset before readdir");
  nb_u64 k = nd_le(3);
#ifndef NB_MODE_P
  static int budget = 3; if(budget-- <= 0) k = 0;
#endif
  if(k == 0) { G.entries = 0; return 0; }
  if(k == 1) { G.failed = 1; nb_may_die = 1; nb_errno_v = 5; return 0; }
  struct dirent *e = &nb_dirents[0];
  char a = nd_u8(), b = nd_u8(), c = nd_u8();
  e->d_name[0] = a ? a : 'x'; e->d_name[1] = b; e->d_name[2] = b ? c : 0; e->d_name[3] = 0;
  _Bool dot = e->d_name[0] == '.' && (e->d_name[1] == 0 || (e->d_name[1] == '.' && e->d_name[2] == 0));
  if(!dot) G.entries++;
#ifdef NB_MODE_P
  nb_strlen_known = e->d_name[1] == 0 ? 1 : e->d_name[2] == 0 ? 2 : 3;
#endif
  return e;
}
void h_dir(void)
{
  init();
  StringView p = nb_view();
  expect(OP_OPENDIR, p, 0, 0);
  strSet(&X_dir, p); nb_strip_of(p);
  DirIterator *d = sDirOpen(p);
  COVER("opened directory");
  OBL(G.done && !G.failed, "opened");
  int e = nb_errno_v;
  G.entries = 0;
  StringView n = sDirGetNext(d);
  COVER("next entry");
  OBL(!G.failed, "read errors never return");
  OBL(nb_errno_v == e, "errno is kept");
  if(strIsEmpty(n)) OBL(G.entries == 0, "end is only reported at the end");
  else {
    const char *nm = nb_dirents[0].d_name;
    OBL(G.entries == 1, "each entry is returned, none skipped");
    OBL(!(nm[0] == '.' && (nm[1] == 0 || (nm[1] == '.' && nm[2] == 0))), "dot entries are skipped");
    OBL(n.content[X_strip] == '/' && n.length > X_strip + 1, "full path");
    if(nb_i < X_strip) OBL(n.content[nb_i] == p.content[nb_i], "path of the directory");
    if(nb_i + X_strip + 1 < n.length && nb_i < 3) OBL(n.content[X_strip + 1 + nb_i] == nm[nb_i], "name of the entry");
  }
  sDirClose(d);
  OBL(d_closed && !G.failed, "closed"); COVER("closed directory");
}
static time_t X_time; static int X_tty;
time_t time(time_t *t) { return X_time; }
int isatty(int fd) { OBL(fd == 7, "descriptor of the stream"); nb_errno_v = nd_int(); return X_tty; }
void h_misc(void)
{
  init();
  X_time = (time_t)nd_u64(); nb_may_die = X_time == (time_t)-1;
  time_t t = sTime();
  OBL(t == X_time && t != (time_t)-1, "current time"); COVER("time");
  f_open = 1; X_tty = nd_le(1); int e = nb_errno_v;
  _Bool r = sIsTTY(&nb_file);
  OBL(r == (X_tty == 1) && nb_errno_v == e, "terminal check"); COVER("tty");
}
