/*NB-UNIT
{ "src": "safe-wrappers.c", "props": ["C21"],
  "targets": ["sReadLine","sGetCurrentDir","sStringToSize"],
  "entry_props": {"n_misc": ["C04","C14","C15","C18","C21"]},
  "entries": ["n_misc"], "mode": "N", "nsecs": 6, "ncount": 30000, "cppdefs": ["-Dgetcwd=NBC_getcwd","-Dfgetc=NBC_fgetc"],
  "nlink": ["str.c","safe-math.c","allocator.c","third-party/CRegion/safe-math.c","third-party/CRegion/region.c","third-party/CRegion/global-region.c","third-party/CRegion/alloc-growable.c"]
}
*/
//@POST
/* lines, numbers, the working directory and regular expressions */
static _Bool may; int *__errno_location(void);
#define errno (*__errno_location())
#define EOF (-1)
#define NB_ON_DIE OBL(may, "error exit only after an error")
//@include die.h
static nb_u64 sd; static unsigned R(unsigned n) { if(!sd) sd = nd_u64() | 1; sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (sd * 0x9E3779B97F4A7C15ul >> 33) % n; }
static char in[5000], cwd[3000]; static unsigned nin, at, failat = ~0u; static unsigned ncwd;
int NBC_fgetc(FILE *f) { if(at == failat) { may = 1; errno = 5; return EOF; } if(at >= nin) return EOF; return (nb_u8)in[at++]; }
char *NBC_getcwd(char *b, size_t n) { if(R(20) == 0) { may = 1; errno = 13; return 0; } if(n < ncwd + 1) { memset(b, 'Z', n); errno = 34; return 0; } memcpy(b, cwd, ncwd + 1); memset(b + ncwd + 1, 'Q', n - ncwd - 1); return b; }
static _Bool stop(char c) { return c == '\n' || c == '\r' || c == 0; }
void n_misc(void)
{
  CR_Region *r = CR_RegionNew(); Allocator *a = R(2) ? allocatorWrapRegion(r) : allocatorWrapOneSingleGrowableBuffer(r);
  nin = R(R(3) ? 40 : 5000); for(unsigned i = 0; i < nin; i++) in[i] = R(R(2) ? 4 : 60) ? 'a' + R(26) : R(3) ? '\n' : R(2) ? '\r' : R(2) ? (char)0xff : 0; if(R(8) == 0) failat = R(nin + 1);
  for(unsigned p = 0;;) { unsigned e = p; while(e < nin && !stop(in[e])) e++; errno = 7; StringView v = str("x"); _Bool b = sReadLine(stdin, a, &v); OBL(errno == 7, "errno is kept"); OBL(failat > e || failat < p || failat == ~0u, "errors are reported"); if(p >= nin) { OBL(!b && v.length == 0, "end of the input"); break; } OBL(b && v.length == e - p && memcmp(v.content, in + p, e - p) == 0, "the line"); p = e < nin ? e + 1 : e; OBL(at == p, "the rest is kept"); }
  may = 0; ncwd = 1 + R(R(2) ? 30 : 2900); for(unsigned i = 0; i < ncwd; i++) cwd[i] = i ? 'a' + R(26) : '/'; cwd[ncwd] = 0; StringView c = sGetCurrentDir(a); OBL(!may && c.length == ncwd && memcmp(c.content, cwd, ncwd) == 0, "the current directory");
  char pat[8], s[8]; unsigned k = R(4); const char *pats[] = { "^[0-9]+$", "a|b", "x{2}", "^/z" }; const char *subj[] = { "123", "12a", "abc", "", "xx", "x", "/z", "a/z" }; static const _Bool exp[4][8] = { { 1, 0, 0, 0, 0, 0, 0, 0 }, { 0, 1, 1, 0, 0, 0, 0, 1 }, { 0, 0, 0, 0, 1, 0, 0, 0 }, { 0, 0, 0, 0, 0, 0, 1, 0 } }; const regex_t *x = sRegexCompile(r, str(pats[k]), str("config"), 3); for(int i = 0; i < 8; i++) OBL(sRegexIsMatching(x, strUnterminated(subj[i], strlen(subj[i]))) == exp[k][i], "result of the match"); (void)pat; (void)s;
  if(R(20) == 0) { may = 1; sRegexCompile(r, str("(a"), str("config"), 3); OBL(0, "invalid expressions are rejected"); }
  char d[40]; unsigned nd = 1 + R(R(3) ? 19 : 30); __uint128_t v = 0; _Bool big = 0; for(unsigned i = 0; i < nd; i++) { d[i] = '0' + (R(3) ? R(10) : R(2) * 9); if(i < 2 && R(2)) d[i] = '9'; } if(R(4) == 0) { nd = 19 + R(2); memcpy(d, R(2) ? "9223372036854775807" : "9223372036854775808", 19); d[19] = '0' + R(10); } for(unsigned i = 0; i < nd; i++) { v = v * 10 + (d[i] - '0'); if(v >> 63) { big = 1; v = 1; v <<= 63; } } d[nd] = 'Q';
  may = big; OBL(sStringToSize(strUnterminated(d, nd)) == v && !big, "exact value"); may = 0;
  CR_RegionRelease(r);
}
