/*NB-UNIT
{ "src": "string-table.c", "props": ["C16"],
  "targets": ["strTableNew","strTableMap","strTableGet"],
  "entries": ["n_map"], "mode": "N", "direct": 1, "nsecs": 12, "ncount": 40000,
  "nlink": ["str.c","safe-math.c"]
}
*/
//@POST
/* Arbitrary sequences of operations against a reference map; the hash
   function is replaced by one with many collisions. */
#define NB_MAX_ATTACH 8
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
//@include alloc.h
static nb_u64 sd; static unsigned R(unsigned n) { if(!sd) sd = nd_u64() | 1; sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (sd * 0x9E3779B97F4A7C15ul >> 33) % n; }
static unsigned kind; static nb_u8 secret[16]; static _Bool have_secret;
uint64_t siphash(const uint8_t *s, const size_t n, const uint8_t k[16])
{
  if(!have_secret) { memcpy(secret, k, 16); have_secret = 1; } OBL(memcmp(secret, k, 16) == 0, "the same secret key is used for every hash");
  nb_u64 h = 1469598103934665603ul; for(size_t i = 0; i < n; i++) { h ^= s[i]; h *= 1099511628211ul; } h ^= h >> 32;
  return kind == 0 ? h : kind == 1 ? h % 3 : kind == 2 ? h << 40 : kind == 3 ? (h % 5) * 32 : kind == 4 ? ~0ul - h % 7 : h % 64;
}
int sRand(void) { return R(0x7fffffff); } void *sMalloc(size_t n) { OBL(n > 0, "size"); void *p = malloc(n); memset(p, 0xA5, n); return p; }
static struct k { char *s; unsigned n; void *d; } K[700]; static unsigned nk;
/* the only way to reach large capacities */
static _Bool big_done;
static void big(void)
{
  enum { N = 150000 }; static char keys[N][4]; kind = 0; have_secret = 0; CR_Region *r = CR_RegionNew(); StringTable *t = strTableNew(r); nb_u32 x = nd_u32() | 1;
  for(unsigned i = 0; i < N; i++) { nb_u32 k = i * 2654435761u ^ x; memcpy(keys[i], &k, 4); strTableMap(t, strUnterminated(keys[i], 4), keys[i]); }
  for(unsigned i = 0; i < N; i++) OBL(strTableGet(t, strUnterminated(keys[i], 4)) == (void *)keys[i], "all associations of a large table are kept");
  OBL(strTableGet(t, strUnterminated(keys[0], 3)) == 0, "nothing is found for keys never mapped"); CR_RegionRelease(r);
}
void n_map(void)
{
  if(!big_done || R(3000) == 0) { big_done = 1; big(); } have_secret = 0;
  kind = R(6); CR_Region *r = CR_RegionNew(); StringTable *t = strTableNew(r); nk = 0; unsigned ops = R(3) ? R(120) : R(600), alpha = 1 + R(4), lm = 1 + R(6); static int vals[700];
  while(ops--) {
    unsigned n = R(lm + 1); char b[8]; for(unsigned i = 0; i < n; i++) { b[i] = R(alpha + 1) * 85; } _Bool fresh = 1; void *d = 0; for(unsigned i = 0; i < nk; i++) if(K[i].n == n && memcmp(K[i].s, b, n) == 0) { fresh = 0; d = K[i].d; }
    OBL(strTableGet(t, strUnterminated(b, n)) == d, "the associated value is found");
    if(fresh && R(4)) { char *c = malloc(n + 1); memcpy(c, b, n); c[n] = 'Q'; K[nk].s = c; K[nk].n = n; K[nk].d = &vals[nk]; strTableMap(t, strUnterminated(c, n), K[nk].d); nk++; OBL(strTableCountMappings(t) == nk, "number of mappings"); }
    if(R(20) == 0) for(unsigned i = 0; i < nk; i++) OBL(strTableGet(t, strUnterminated(K[i].s, K[i].n)) == K[i].d, "all associations are kept"); }
  for(unsigned i = 0; i < nk; i++) OBL(strTableGet(t, strUnterminated(K[i].s, K[i].n)) == K[i].d, "all associations are kept");
  CR_RegionRelease(r);
}
