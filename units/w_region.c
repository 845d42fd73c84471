/*NB-UNIT
{ "src": "third-party/CRegion/region.c", "props": ["C23"],
  "targets": ["CR_RegionNew","CR_RegionAlloc","CR_RegionAttach","CR_RegionRelease"],
  "entries": ["n_region"], "mode": "N", "nsecs": 12, "ncount": 40000,
  "cppdefs": ["-Dmalloc=NBC_malloc","-Dfree=NBC_free"], "nlink": ["third-party/CRegion/safe-math.c"]
}
*/
//@POST
/* Arbitrary sequences of operations on several regions; memory may run out
   at any point. */
static void at_die(void);
#define NB_ON_DIE at_die()
//@include die.h
static nb_u64 sd; static unsigned R(unsigned n) { if(!sd) sd = nd_u64() | 1; sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (sd * 0x9E3779B97F4A7C15ul >> 33) % n; }
static struct { nb_u8 *p; nb_u64 n; } blk[4000]; static unsigned nblk, live; static int failat = -1, nm; static _Bool failed;
static struct { nb_u8 *p; nb_u64 n; int r; nb_u8 v; } al[3000]; static unsigned nal; static struct { int r, done; } cb[1000]; static int ncb, releasing = -1, incb, attaching = -1; static struct CR_Region *rg[6]; static int alive[6]; static void (*onexit_)(void); static _Bool exiting;
void *NBC_malloc(size_t n)
{
  OBL(n > 0, "size"); if(nm++ == failat) { failed = 1; return 0; } ASSUME(nblk < 4000); nb_u8 *p = malloc(n + 16); ASSUME(p != 0); for(nb_u64 i = 0; i < n + 16; i++) p[i] = 0xA5; blk[nblk].p = p; blk[nblk++].n = n; live++; return p;
}
static void guard(unsigned i) { for(int k = 0; k < 16; k++) OBL(blk[i].p[blk[i].n + k] == 0xA5, "memory is not exceeded"); }
static void none_left(int r) { for(int i = 0; i < ncb; i++) if(cb[i].r == r) OBL(cb[i].done == 1, "every cleanup function is called once before memory is released"); }
void NBC_free(void *p) { OBL(incb == 0, "memory is released after cleanup"); if(releasing >= 0) none_left(releasing); for(unsigned i = 0; i < nblk; i++) if(blk[i].p == p) { guard(i); for(nb_u64 k = 0; k < blk[i].n; k++) blk[i].p[k] = 0xDD; blk[i].p = 0; live--; return; } OBL(0, "memory is released once"); }
int atexit(void (*f)(void)) { OBL(!onexit_, "registered once"); onexit_ = f; return 0; }
static nb_u8 pat(unsigned i, nb_u64 k) { return al[i].v + k; }
static void check(int r) { for(unsigned i = 0; i < nal; i++) if(al[i].r == r) for(nb_u64 k = 0; k < al[i].n; k++) OBL(al[i].p[k] == pat(i, k), "memory overlaps no other live memory"); }
static int last(int r) { for(int i = ncb - 1; i >= 0; i--) if(cb[i].r == r && !cb[i].done) return i; return -1; }
static void call(void *d)
{
  int i = (int)(long)d - 1; OBL(i >= 0 && i < ncb && !cb[i].done, "cleanup functions are called once"); if(!exiting) OBL(cb[i].r == releasing, "cleanup function of the region"); else releasing = -1; OBL(last(cb[i].r) == i, "cleanup functions are called in reverse order"); check(cb[i].r); cb[i].done = 1;
}
static void finish(void)
{
  exiting = 1; releasing = -1; if(onexit_) onexit_(); for(int i = 0; i < ncb; i++) OBL(cb[i].done == 1, "cleanup functions are called at exit"); OBL(live == 0, "all memory is released at exit");
}
static void at_die(void) { OBL(failed, "error exit only when memory is exhausted"); finish(); }
void n_region(void)
{
  if(R(3) == 0) failat = R(30); unsigned ops = R(4) ? R(150) : R(15), big = R(3);
  while(ops--) {
    int r = R(6);
    if(!alive[r]) { if(R(2)) { rg[r] = CR_RegionNew(); alive[r] = 1; } continue; }
    unsigned o = R(20);
    if(o < 14 && nal < 3000) { nb_u64 n = big == 0 ? 1 + R(40) : R(4) ? 1 + R(600) : R(2) ? (1ul << (5 + R(9))) + R(40) - 20 : 1 + R(9000); if(n == 0) n = 1; _Bool un = R(3) == 0; nb_u8 *p = un ? CR_RegionAllocUnaligned(rg[r], n) : CR_RegionAlloc(rg[r], n); OBL(p != 0, "memory"); if(!un) OBL((nb_u64)p % 8 == 0, "aligned");
      _Bool in = 0; for(unsigned i = 0; i < nblk; i++) if(blk[i].p && p >= blk[i].p && p + n <= blk[i].p + blk[i].n) in = 1; OBL(in, "large enough"); al[nal].p = p; al[nal].n = n; al[nal].r = r; al[nal].v = R(256); for(nb_u64 k = 0; k < n; k++) p[k] = pat(nal, k); nal++; if(R(4) == 0) check(r); }
    else if(o < 18 && ncb < 1000) { cb[ncb].r = r; cb[ncb].done = 0; ncb++; CR_RegionAttach(rg[r], call, (void *)(long)ncb); }
    else if(R(3) == 0) { check(r); releasing = r; CR_RegionRelease(rg[r]); none_left(r); for(unsigned i = 0; i < nal; i++) if(al[i].r == r) al[i].r = -1; for(int i = 0; i < ncb; i++) if(cb[i].r == r) cb[i].r = -1 - i; releasing = -1; alive[r] = 0; _Bool any = 0; for(int i = 0; i < 6; i++) any |= alive[i]; if(!any) OBL(live == 0, "all memory of a region is released"); }
  }
  for(int r = 0; r < 6; r++) if(alive[r]) check(r);
  finish();
}
