/*NB-UNIT
{ "src": "third-party/CRegion/alloc-growable.c", "props": ["C23"],
  "targets": ["CR_RegionAllocGrowable","CR_EnsureCapacity"],
  "entries": ["n_growable"], "mode": "N", "nsecs": 8, "ncount": 40000,
  "cppdefs": ["-Dmalloc=NBC_malloc","-Dfree=NBC_free","-Drealloc=NBC_realloc"], "nlink": ["third-party/CRegion/safe-math.c","third-party/CRegion/region.c","third-party/CRegion/global-region.c"]
}
*/
//@POST
/* Arbitrary sequences of growing several buffers of one region. */
static void at_die(void);
#define NB_ON_DIE at_die()
//@include die.h
static nb_u64 sd; static unsigned R(unsigned n) { if(!sd) sd = nd_u64() | 1; sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (sd * 0x9E3779B97F4A7C15ul >> 33) % n; }
static struct { nb_u8 *p; nb_u64 n; } blk[2000]; static unsigned nblk, live; static int failat = -1, nm; static _Bool failed, exiting;
static struct { nb_u8 *p; nb_u64 n; nb_u8 v; _Bool g; } B[5]; static CR_Region *r;
static int find(void *p) { for(unsigned i = 0; i < nblk; i++) if(blk[i].p == p && p) { for(int k = 0; k < 16; k++) OBL(blk[i].p[blk[i].n + k] == 0xA5, "memory is not exceeded"); return i; } OBL(0, "memory is valid and released once"); return 0; }
void *NBC_malloc(size_t n) { OBL(n > 0, "size"); if(nm++ == failat) { failed = 1; return 0; } ASSUME(nblk < 2000); nb_u8 *p = malloc(n + 16); ASSUME(p != 0); for(nb_u64 i = 0; i < n + 16; i++) p[i] = 0xA5; blk[nblk].p = p; blk[nblk++].n = n; live++; return p; }
void NBC_free(void *p) { int i = find(p); for(nb_u64 k = 0; k < blk[i].n; k++) blk[i].p[k] = 0xDD; blk[i].p = 0; live--; }
void *NBC_realloc(void *p, size_t n) { int i = find(p); nb_u64 o = blk[i].n; nb_u8 *q = NBC_malloc(n); if(!q) return 0; for(nb_u64 k = 0; k < (o < n ? o : n); k++) q[k] = ((nb_u8 *)p)[k]; NBC_free(p); return q; }
static void check(int i) { for(nb_u64 k = 0; k < B[i].n; k++) OBL(B[i].p[k] == (nb_u8)(B[i].v + k), "content is preserved"); }
static void finish(void) { exiting = 1; if(r) CR_RegionRelease(r); r = 0; unsigned g = 0; for(int i = 0; i < 5; i++) g += B[i].g; OBL(live == g, "memory is released once with its region"); }
static void at_die(void) { OBL(failed, "error exit only when memory is exhausted"); finish(); }
void n_growable(void)
{
  if(R(3) == 0) failat = R(20); r = CR_RegionNew(); unsigned ops = R(60);
  while(ops--) {
    int i = R(5); nb_u64 n = R(3) ? 1 + R(60) : 1 + R(5000); nb_u8 *p;
    if(!B[i].p) { _Bool g = R(4) == 0; if(g) p = CR_EnsureCapacity(0, n); else p = CR_RegionAllocGrowable(r, n); B[i].g = g; B[i].n = 0; } else { check(i); p = CR_EnsureCapacity(B[i].p, n); }
    OBL(p != 0 && (nb_u64)p % 8 == 0, "aligned"); _Bool in = 0; for(unsigned k = 0; k < nblk; k++) if(blk[k].p && p >= blk[k].p && p + n <= blk[k].p + blk[k].n && p + B[i].n <= blk[k].p + blk[k].n) in = 1; OBL(in, "large enough"); B[i].p = p; check(i);
    if(n > B[i].n) { B[i].n = n; } B[i].v = R(256); for(nb_u64 k = 0; k < B[i].n; k++) p[k] = B[i].v + k; }
  for(int i = 0; i < 5; i++) if(B[i].p) check(i);
  finish();
}
