/*NB-UNIT
{ "src": "safe-wrappers.c", "props": ["C21"],
  "targets": ["sReadLine","sGetCurrentDir","sStringToSize","sRegexCompile","sRegexIsMatching","sMalloc","sAtexit","sTimeMilliseconds"],
  "entries": ["p_line","p_cwd","p_size","p_regex","p_match","p_misc"],
  "entry_props": {"p_line": ["C04", "C21"], "p_cwd": ["C04", "C21", "C10"], "p_size": ["C18", "C10"], "p_regex": ["C14", "C21"], "p_match": ["C15"], "p_misc": ["C18", "C19", "C04"]},
  "mode": "P", "confirm": ["w_wrappers2/n_misc"],
  "unwind": 4, "timeout": 200, "sat": "cadical",
  "state": ["n","err","fin","got","eof"],
  "lv": [["nb_wv","nb_u8"]],
  "gen": {"char *": "nb_bgen()"},
  "cands": ["$p(char *) == nb_bp", "$u == nb_cap", "$u < nb_cap", "$u == G.n", "nb_w >= G.n || nb_byte() == nb_wv", "nb_valid()", "!G.fin && !G.err && !G.got"],
  "assumes": ["fgetc(), getcwd(), strtoll(), regcomp(), regexec(), atexit() as specified by POSIX; matching a regular expression does not run out of memory", "growable buffers as proved for C23, strings as for C17"]
}
*/
//@PRE
struct nb_G { nb_u64 n; _Bool err, fin, got, eof; };
//@MID
extern struct nb_G G; extern char *nb_bp; extern nb_u64 nb_cap, nb_w; extern nb_u8 nb_wv; char *nb_bgen(void); nb_u8 nb_byte(void); _Bool nb_valid(void);
//@POST
static _Bool dieexp(void);
#define NB_ON_DIE OBL(dieexp(), "error exit only after an error")
//@include die.h
//@include sv.h
struct nb_G G; char *nb_bp; nb_u64 nb_cap, nb_w; nb_u8 nb_wv; static int X_mode, X_errno, e0; static struct CR_Region { int x; } reg, glob; static struct Allocator { int x; } tmp, out, mal; static char tok[4], tok2[4]; static nb_u64 X_len; static _Bool X_big, X_mem;
int *__errno_location(void) { return &X_errno; }
static _Bool dieexp(void) { return G.err; }
nb_u8 nb_byte(void) { return nb_bp && nb_w < nb_cap ? (nb_u8)nb_bp[nb_w] : 0; }
_Bool nb_valid(void) { return nb_bp && nb_cap > 0 && __CPROVER_w_ok(nb_bp, nb_cap); }
char *nb_bgen(void) { nb_u64 n = nd_u64(); ASSUME(n > 0 && n < 1ul << 46); char *p = malloc(n); ASSUME(p != 0); nb_bp = p; nb_cap = n; return p; }
CR_Region *CR_GetGlobalRegion(void) { return &glob; }
Allocator *allocatorWrapOneSingleGrowableBuffer(CR_Region *r) { OBL(r == &glob, "temporary buffer"); if(nd_bool()) { G.err = 1; die(""); } return &tmp; }
Allocator *allocatorWrapMalloc(void) { return &mal; }
/* the content of the growable buffer is preserved */
void *allocate(Allocator *a, size_t n)
{
  if(a == &mal) { OBL(n == X_len && X_mode == 5, "requested size"); if(nd_bool()) { G.err = 1; die(""); } return tok; } OBL(a == &tmp && n > 0, "temporary buffer"); if(nd_bool()) { G.err = 1; die(""); } ASSUME(n < 1ul << 46);
  nb_u8 k = nb_byte(); char *p = malloc(n); ASSUME(p != 0); if(nb_w < n) p[nb_w] = k; if(nb_bp) free(nb_bp); nb_bp = p; nb_cap = n; return p;
}
size_t sSizeMul(size_t a, size_t b) { __uint128_t p = (__uint128_t)a * b; if(p >> 64) { G.err = 1; die(""); } return (size_t)p; }
uint64_t sUint64Mul(uint64_t a, uint64_t b) { return sSizeMul(a, b); } uint64_t sUint64Add(uint64_t a, uint64_t b) { if(a + b < a) { G.err = 1; die(""); } return a + b; } size_t sSizeAdd(size_t a, size_t b) { return sUint64Add(a, b); }
StringView strUnterminated(const char *s, size_t n) { StringView v; SV_SET(v, s, n, 0); return v; }
StringView str(const char *s) { StringView v; SV_SET(v, s, 0, 1); if(X_mode == 1 && G.got) { OBL(s == nb_bp, "current directory"); SV_SET(v, s, X_len, 1); } return v; }
void strSet(StringView *a, StringView b) { SV_CPY(*a, b); }
static int ncopy;
StringView strCopy(StringView v, Allocator *a)
{
  OBL(a == &out && ncopy == 0, "memory of the caller"); ncopy++; if(X_mode == 0) { OBL(v.length == G.n && (v.length == 0 || __CPROVER_r_ok(v.content, v.length)), "the whole line"); if(nb_w < G.n) OBL((nb_u8)v.content[nb_w] == nb_wv, "bytes of the line"); }
  else OBL(X_mode == 1 && G.got && v.content == nb_bp && v.length == X_len, "the current directory"); if(nd_bool()) { G.err = 1; die(""); } StringView r; SV_SET(r, tok, v.length, 1); return r;
}
static StringView X_sv;
const char *strGetContent(StringView v, Allocator *a) { OBL(a == &tmp && v.content == tok2 && v.length == X_len, "the string"); return tok; }
/* ---- lines ---- */
static int fobj;
int fgetc(FILE *f)
{
  OBL(f == (FILE *)&fobj && !G.fin && !G.err, "a line is read up to its end"); int c = nd_bool() ? EOF : nd_u8(); if(c == EOF) { G.eof = 1; if(nd_bool()) { G.err = 1; X_errno = 5; } else G.fin = 1; return EOF; }
  if(c == '\n' || c == '\r' || c == 0) { G.fin = 1; return c; } if(G.n == nb_w) nb_wv = c; G.n++; ASSUME(G.n < 1ul << 44); return c;
}
int getc(FILE *f) { return fgetc(f); }
static void init(int m) { X_mode = m; G.n = 0; G.err = G.fin = G.got = G.eof = 0; nb_bp = 0; nb_cap = 0; nb_w = nd_u64(); nb_wv = nd_u8(); ncopy = 0; e0 = X_errno = nd_int(); X_len = nd_u64(); ASSUME(X_len < 1ul << 40); }
void p_line(void)
{
  init(0); StringView r; SV_SET(r, tok2, 1, 0); _Bool b = sReadLine((FILE *)&fobj, &out, &r); OBL(G.fin && !G.err, "errors are reported"); OBL(b == !(G.eof && G.n == 0), "end of the input"); if(b) { OBL(r.content == tok && r.length == G.n && ncopy == 1, "the line"); COVER("line"); if(G.n > 9) COVER("long"); } else { OBL(r.length == 0, "empty at the end"); COVER("eof"); } 
}
/* ---- current directory ---- */
char *getcwd(char *b, size_t n) { OBL(b == nb_bp && n <= nb_cap && n > 0 && !G.got && !G.err, "buffer for the path"); if(nd_bool()) { G.err = 1; X_errno = 13; return 0; } if(X_len + 1 > n) { X_errno = 34; return 0; } G.got = 1; return b; }
void p_cwd(void) { init(1); StringView r = sGetCurrentDir(&out); OBL(G.got && r.content == tok && r.length == X_len, "the current directory"); COVER("cwd"); if(X_len > 20) COVER("long"); }
/* ---- numbers: digits only ---- */
static nb_u64 X_val; 
static const nb_u64 llmax = ~0ul >> 1;
long long strtoll(const char *s, char **e, int b) { OBL(s == tok && b == 10, "the string"); *e = tok + 1; if(X_big || X_val > llmax) { X_errno = 34; return llmax; } return X_val; }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { OBL(s == tok && b == 10, "the string"); *e = tok + 1; if(X_big) { X_errno = 34; return ~0ul; } return X_val; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
void p_size(void) { init(2); X_val = nd_u64(); X_big = nd_bool(); G.err = X_big || X_val > llmax; SV_SET(X_sv, tok2, X_len, 0); nb_u64 r = sStringToSize(X_sv); OBL(!X_big && r == X_val, "exact value"); COVER("number"); }
/* ---- regular expressions ---- */
static regex_t rx; static int nattach, ncomp, nfreed; static _Bool X_match; static CR_ReleaseCallback *X_f;
void *CR_RegionAlloc(CR_Region *r, size_t n) { OBL(r == &reg && n == sizeof rx, "memory of the expression"); if(nd_bool()) { G.err = 1; die(""); } return &rx; }
void CR_RegionAttach(CR_Region *r, CR_ReleaseCallback *f, void *d) { OBL(r == &reg && d == &rx && ncomp == 1 && nattach == 0 && !G.err, "expression is released with the region"); nattach++; f(d); OBL(nfreed == 1, "expression is released"); }
int regcomp(regex_t *r, const char *s, int fl) { OBL(r == &rx && s == tok && ncomp == 0, "the expression"); OBL((fl & REG_EXTENDED) && !(fl & REG_ICASE), "extended expression"); ncomp++; if(nd_bool()) { G.err = 1; return 1 + nd_le(12); } return 0; }
size_t regerror(int e, const regex_t *r, char *b, size_t n) { OBL(G.err && e != 0, "error"); if(n) OBL(__CPROVER_w_ok(b, n), "buffer of the message"); return nd_range(1, 200); }
void regfree(regex_t *r) { OBL(r == &rx, "the expression"); nfreed++; }
int regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int fl) { OBL(r == &rx && s == tok && fl == 0, "the string is matched"); return X_match ? 0 : REG_NOMATCH; }
void p_regex(void) { init(3); ncomp = nattach = nfreed = 0; StringView v, f; SV_SET(v, tok2, X_len, 0); SV_SET(f, tok2 + 1, 1, 0); const regex_t *r = sRegexCompile(&reg, v, f, nd_u64()); OBL(r == &rx && ncomp == 1 && nattach == 1 && !G.err, "compiled"); COVER("compiled"); }
void p_match(void) { init(4); X_match = nd_bool(); StringView v; SV_SET(v, tok2, X_len, 0); OBL(sRegexIsMatching(&rx, v) == X_match, "result of the match"); COVER("match"); }
/* ---- rest ---- */
static void fun(void) {} static int nat; static nb_u64 X_s, X_ns;
int atexit(void (*f)(void)) { OBL(f == fun && nat == 0, "registered"); nat++; if(nd_bool()) { G.err = 1; return -1; } return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { if(nd_bool()) { G.err = 1; return -1; } t->tv_sec = X_s; t->tv_nsec = X_ns; return 0; }
void p_misc(void)
{
  init(5); OBL(sMalloc(X_len) == tok, "memory"); nat = 0; sAtexit(fun); OBL(nat == 1 && !G.err, "registered"); X_s = nd_le(1ul << 40); X_ns = nd_le(999999999); OBL(sTimeMilliseconds() == X_s * 1000 + X_ns / 1000000 && !G.err, "milliseconds"); COVER("misc");
}
