/*NB-UNIT
{ "src": "repository.c", "props": ["C03","C05","C21"],
  "targets": ["repoRegularFileExists","repoReaderOpenFile","repoReaderRead","repoReaderClose","repoWriterOpenFile","repoWriterOpenRaw","repoWriterWrite","repoWriterClose"],
  "entries": ["h_exists","h_reader","h_writer","h_raw"],
  "nocut": ["*"],
  "rename_p": ["*@fillPathBufferWithInfo"],
  "link": ["safe-math.c","str.c"], "unwind": 24, "bunwind": 24, "timeout": 400, "sat": "cadical",
  "assumes": ["a crash leaves earlier runs' directories durable (a directory found existing was synced into its parent)",
              "stdio/POSIX functions behave as specified (contracts proved for safe-wrappers.c in unit wrappers)"],
  "entry_props": {"h_raw": ["C03", "C05", "C21", "C01"], "h_writer": ["C03", "C05", "C21", "C06"], "h_reader": ["C03", "C05", "C21", "C11"]}
}
*/
//@POST
//@include die.h
//@include fmt.h
static nb_u64 nb_i;
#ifdef NB_MODE_P
#define MAXLEN (1ul << 32)
#else
#define MAXLEN 2
#endif
//@include mem.h
static int nb_errno_v;
int *__errno_location(void) { return &nb_errno_v; }
static const char hx[] = "0123456789abcdef";
static unsigned digits(nb_u64 v) { unsigned k = 1; for(unsigned j = 1; j < 16; j++) if(v >> (4 * j)) k = j + 1; return k; }
static RegularFileInfo X_info; static StringView X_repo, X_tmp, X_src, X_final; static unsigned X_dsize, X_dslot;
/* specified name below the repository (see unit repopath) */
#ifdef NB_MODE_P
static char X_wc; /* the character of the name at the watched index: any non-zero value */
static char spec_char(unsigned k) { return k == 1 || k == 4 ? '/' : X_wc; }
static char spec5(void) { return X_wc; }
#else
static char spec_char(unsigned k)
{
  if(k == 0) return hx[X_info.hash[0] >> 4];
  if(k == 1 || k == 4) return '/';
  if(k == 2) return hx[X_info.hash[0] & 15];
  if(k == 3) return hx[X_info.hash[1] >> 4];
  if(k < 42) { unsigned h = (k - 2) / 2; return (k & 1) == 0 ? hx[X_info.hash[h] >> 4] : hx[X_info.hash[h] & 15]; }
  if(k == 42) return 'x';
  if(k < 43 + X_dsize) return hx[(X_info.size >> (4 * (X_dsize - 1 - (k - 43)))) & 15];
  if(k == 43 + X_dsize) return 'x';
  if(k < 44 + X_dsize + X_dslot) return hx[(X_info.slot >> (4 * (X_dslot - 1 - (k - 44 - X_dsize)))) & 15];
  return 0;
}
static char spec5(void) { return hx[X_info.hash[1] & 15]; }
#endif
static unsigned X_full(void) { return 44 + X_dsize + X_dslot; }
static char *g_buf;
void *CR_EnsureCapacity(void *p, size_t n)
{
  OBL(n > 0, "capacity");
  char *b = malloc(n); ASSUME(b != 0);
#ifndef NB_NATIVE
  if(p) free(p);
#endif
  return b;
}
#ifdef NB_MODE_P
/* first terminator among the lengths that matter; nothing before it is a
   terminator (proved for the arbitrary index nb_i) */
size_t strlen(const char *s)
{
  nb_u64 l = X_repo.length;
  nb_u64 n = s[l + 2] == 0 ? l + 2 : s[l + 5] == 0 ? l + 5 : l + 1 + X_full();
  OBL(s[n] == 0, "terminated path");
  if(nb_i < n) OBL(s[nb_i] != 0, "no early terminator");
  return n;
}
#endif
/* which of the paths is it?  1: first level, 2: second level, 3: stored file, 4: repo, 5: tmp, 6: final */
static int which(StringView p)
{
  nb_u64 l = X_repo.length;
  if(p.content == X_tmp.content && p.length == X_tmp.length) return 5;
  if(p.content == X_repo.content && p.length == l) return 4;
  if(p.content == X_final.content && p.length == X_final.length) return 6;
  OBL(p.length == l + 2 || p.length == l + 5 || p.length == l + 1 + X_full(), "a path of the repository");
  if(nb_i < p.length) {
    if(nb_i < l) OBL(p.content[nb_i] == X_repo.content[nb_i], "below the repository");
    else if(nb_i == l) OBL(p.content[nb_i] == '/', "below the repository");
    else { unsigned k = nb_i - l - 1;
      OBL(p.content[nb_i] == (k >= 5 ? (k == 5 ? spec5() : spec_char(k)) : k == 1 || k == 4 ? '/' : spec_char(k)), "name determined by hash, size and slot"); }
  }
  return p.length == l + 2 ? 1 : p.length == l + 5 ? 2 : 3;
}
static _Bool e1, e2, e3, d_repo, d1, d2, d_final; /* existence and unsynced directory entries */
static _Bool t_open, t_closed, t_flushed, t_failed, published; static nb_u64 t_written;
static _Bool failing(void) { return nd_bool(); }
#define MAYDIE() do { if(failing()) NB_STOP("die"); } while(0)
bool sPathExists(StringView p) { MAYDIE(); int w = which(p); OBL(w >= 1 && w <= 3, "existence of a repository path"); return w == 1 ? e1 : w == 2 ? e2 : e3; }
void sMkdir(StringView p)
{
  int w = which(p); OBL(w == 1 || w == 2, "directory of the stored file"); MAYDIE();
  if(w == 1) { if(e1) NB_STOP("die"); e1 = 1; d_repo = 1; }
  else { OBL(e1, "parent first"); if(e2) NB_STOP("die"); e2 = 1; d1 = 1; }
}
void fDatasync(StringView p)
{
  int w = which(p); MAYDIE();
  OBL(w == 4 || w == 1 || w == 2, "directory");
  if(w == 4) d_repo = 0; if(w == 1) d1 = 0; if(w == 2) d2 = 0;
}
static struct FileStream { int x; } nb_stream;
FileStream *sFopenWrite(StringView p)
{
  OBL(which(p) == 5, "only the temporary file is written"); OBL(!t_open, "one temporary file at a time");
  MAYDIE(); t_open = 1; t_closed = 0; t_flushed = 0; t_written = 0;
  return &nb_stream;
}
static const void *X_data; static nb_u64 X_n;
bool fWrite(const void *p, size_t n, FileStream *s)
{
  OBL(s == &nb_stream && t_open && !t_closed, "open stream"); OBL(p == X_data && n == X_n, "data passed on");
  t_flushed = 0;
  if(failing()) { t_failed = 1; nb_may_die = 1; return 0; }
  t_written += n; return 1;
}
void sFwrite(const void *p, size_t n, FileStream *s) { if(!fWrite(p, n, s)) NB_STOP("die"); }
bool fTodisk(FileStream *s)
{
  OBL(s == &nb_stream && t_open && !t_closed, "open stream");
  if(failing()) { t_failed = 1; nb_may_die = 1; return 0; }
  t_flushed = 1; return 1;
}
void sFclose(FileStream *s) { OBL(s == &nb_stream && t_open && !t_closed, "open stream"); t_closed = 1; MAYDIE(); }
void fDestroy(FileStream *s) { OBL(s == &nb_stream && t_open && !t_closed, "open stream"); t_closed = 1; }
void sRename(StringView a, StringView b)
{
  OBL(which(a) == 5, "the temporary file is moved"); int w = which(b);
  OBL(t_open && t_closed && t_flushed && !t_failed, "only a complete, synced and closed file is published");
  OBL(!published, "published once");
  if(X_final.content) OBL(w == 6, "final name"); else { OBL(w == 3, "final name"); OBL(e1 && e2, "directories exist"); }
  MAYDIE();
  published = 1; if(w == 6) d_repo = 1; else { e3 = 1; d2 = 1; }
}
void *sMalloc(size_t n) { void *p = malloc(n); ASSUME(p != 0); return p; }
static char *nb_bytes(nb_u64 n)
{
  char *p = malloc(n + 1); ASSUME(p != 0);
#ifndef NB_MODE_P
  for(nb_u64 i = 0; i < n; i++) { nb_u8 c = nd_u8(); p[i] = c ? (char)c : 'a'; }
#endif
  return p;
}
static StringView nb_view(void)
{
  nb_u64 len = nd_le(MAXLEN); _Bool term = nd_bool();
  char *p = nb_bytes(len);
  if(term) p[len] = 0;
#ifdef NB_MODE_P
  if(nb_i < len) ASSUME(p[nb_i] != 0);
#endif
  return (StringView){ .content = p, .length = len, .is_terminated = term };
}
static void init(void)
{
  nb_i = nd_le(MAXLEN + 64);
#ifdef NB_MODE_P
  nb_watch = nb_i;
#endif
  strSet(&X_repo, nb_view()); strSet(&X_tmp, nb_view()); strSet(&X_src, nb_view());
  for(int k = 0; k < FILE_HASH_SIZE; k++) X_info.hash[k] = nd_u8();
  X_info.size = nd_u64(); X_info.slot = nd_u8(); 
#ifdef NB_MODE_P
  X_dsize = nd_range(1, 16); X_dslot = nd_range(1, 2); X_wc = nd_u8(); ASSUME(X_wc != 0);
#else
  X_dsize = digits(X_info.size); X_dslot = digits(X_info.slot);
#endif
  e2 = nd_bool(); e1 = e2 || nd_bool(); e3 = e2 && nd_bool();
  nb_errno_v = nd_int();
}
#ifdef NB_MODE_P
/* contract of fillPathBufferWithInfo(): "<repo>/<name>", name as proved in unit repopath */
static void NBC_fillPathBufferWithInfo(StringView repo, const RegularFileInfo *info)
{
  nb_u64 l = repo.length;
  OBL(repo.content == X_repo.content && l == X_repo.length, "path of the repository");
  OBL(info == &X_info, "info of the file");
  path_buffer = CR_EnsureCapacity(path_buffer, l + 1 + X_full() + 1);
  if(nb_i < l) path_buffer[nb_i] = repo.content[nb_i];
  path_buffer[l] = '/'; path_buffer[l + 2] = '/'; path_buffer[l + 5] = '/';
  if(nb_i > l && nb_i - l - 1 < X_full()) path_buffer[nb_i] = nb_i - l - 1 == 5 ? spec5() : spec_char(nb_i - l - 1);
  path_buffer[l + 1 + X_full()] = 0;
  if(nb_i < l) ASSUME(path_buffer[nb_i] != 0);
}
#endif
void h_exists(void)
{
  init();
  _Bool r = repoRegularFileExists(X_repo, &X_info);
  COVER("checked");
  OBL(r == e3, "tells whether exactly this stored file exists");
}
static FILE nb_file; static _Bool f_open, f_closed; static nb_u64 f_size, f_pos; static _Bool f_eof, f_err; static nb_u8 f_watch; static nb_u64 f_i;
FILE *fopen(const char *p, const char *mode)
{
  OBL(mode[0] == 'r', "opened for reading only");
  StringView v = { .content = p, .length = X_repo.length + 1 + X_full(), .is_terminated = 1 };
  OBL(which(v) == 3 && p[v.length] == 0, "the stored file is opened");
  OBL(!f_open, "opened once");
  if(!e3 || failing()) { nb_may_die = 1; return 0; }
  f_open = 1; return &nb_file;
}
size_t fread(void *p, size_t sz, size_t n, FILE *f)
{
  OBL(f == &nb_file && f_open && !f_closed, "open stream"); OBL(sz == 1, "byte-wise read");
#ifdef NB_MODE_P
  OBL(n == 0 || __CPROVER_w_ok(p, n), "read into valid memory");
  if(n > 0) __CPROVER_havoc_slice(p, n);
#else
  for(nb_u64 i = 0; i < n; i++) ((nb_u8 *)p)[i] = nd_u8();
#endif
  nb_u64 left = f_size - f_pos;
  if(n > 0 && nd_bool()) { f_err = 1; nb_may_die = 1; nb_u64 k = nd_le(n - 1); ASSUME(k <= left); f_pos += k; return k; }
  if(n > left) { f_eof = 1; nb_may_die = 1; f_pos += left; return left; }
  if(f_i >= f_pos && f_i - f_pos < n) ((nb_u8 *)p)[f_i - f_pos] = f_watch;
  f_pos += n;
  return n;
}
int feof(FILE *f) { return f_eof; }
int ferror(FILE *f) { return f_err; }
int fclose(FILE *f) { OBL(f == &nb_file && f_open && !f_closed, "stream closed once"); f_closed = 1; if(failing()) { nb_may_die = 1; return -1; } return 0; }
void h_reader(void)
{
  init();
  f_size = nd_le(MAXLEN); f_i = nd_le(MAXLEN); f_watch = nd_u8();
  RepoReader *r = repoReaderOpenFile(X_repo, X_src, &X_info);
  COVER("opened");
  OBL(f_open && e3, "opened or error exit");
  nb_u64 n = nd_le(MAXLEN), m = nd_le(MAXLEN); nb_u8 *a = malloc(n + 1), *b = malloc(m + 1); ASSUME(a && b);
  repoReaderRead(a, n, r);
  COVER("read");
  OBL(n <= f_size && f_pos == n && !f_err, "a short read never returns");
  if(f_i < n) OBL(a[f_i] == f_watch, "bytes of the stored file");
  repoReaderRead(b, m, r);
  OBL(f_pos == n + m && n + m <= f_size && !f_err, "a short read never returns");
  if(f_i >= n && f_i - n < m) OBL(b[f_i - n] == f_watch, "bytes of the stored file in order");
  nb_may_die = 0;
  repoReaderClose(r);
  COVER("closed");
  OBL(f_closed && !nb_may_die, "closed without error");
}
static void finish(RepoWriter *w)
{
  OBL(t_open && !t_closed && !published, "temporary file opened, nothing published");
  nb_u64 total = 0;
  for(int k = 0; k < 2; k++) {
    char buf[4]; nb_u64 n = nd_le(4); X_data = buf; X_n = n;
    repoWriterWrite(buf, n, w);
    total += n;
    OBL(t_written == total && !t_failed && !published, "everything written or error exit");
  }
  _Bool o1 = e1, o2 = e2;
  repoWriterClose(w);
  COVER("closed");
  OBL(published && t_closed && !t_failed, "published");
  OBL(!d_repo && !d1 && !d2, "directory entries are synced");
  if(!o1) COVER("first level created"); 
  if(o1 && !o2) COVER("second level created");
}
void h_writer(void)
{
  init();
  finish(repoWriterOpenFile(X_repo, X_tmp, X_src, &X_info));
}
void h_raw(void)
{
  init();
  strSet(&X_final, nb_view());
  finish(repoWriterOpenRaw(X_repo, X_tmp, X_src, X_final));
}
