/*NB-UNIT
{ "src": "allocator.c", "props": ["C23","C18"],
  "targets": ["allocate"], "entries": ["n_allocator"], "mode": "N", "nsecs": 5, "ncount": 20000,
  "cppdefs": ["-Dmalloc=NBC_malloc"], "nlink": ["third-party/CRegion/safe-math.c","third-party/CRegion/region.c","third-party/CRegion/global-region.c","third-party/CRegion/alloc-growable.c"]
}
*/
//@POST
/* sequences of allocations through allocators of every kind */
static void ondie(void);
#define NB_ON_DIE ondie()
//@include die.h
static nb_u64 sd; static unsigned R(unsigned n) { if(!sd) sd = nd_u64() | 1; sd ^= sd << 13; sd ^= sd >> 7; sd ^= sd << 17; return (sd * 0x9E3779B97F4A7C15ul >> 33) % n; }
static _Bool may, failed; static nb_u64 last; static nb_u8 *pl[300]; static unsigned np; static nb_u64 sz[300];
static void ondie(void) { OBL(may || failed, "error exit only when memory is exhausted or nothing is requested"); }
void *NBC_malloc(size_t n) { last = n; if(R(40) == 0) { failed = 1; return 0; } return malloc(n); }
void n_allocator(void)
{
  CR_Region *r = CR_RegionNew(); Allocator *m = allocatorWrapMalloc(), *g = allocatorWrapRegion(r), *b = allocatorWrapOneSingleGrowableBuffer(r), *f = allocatorWrapAlwaysFailing(); nb_u8 *bp = 0; nb_u64 bn = 0; unsigned ops = R(100);
  while(ops--) { nb_u64 n = R(30) ? 1 + R(R(2) ? 100 : 3000) : 0; unsigned k = R(40); may = n == 0; nb_u8 *p;
    if(k == 0) { may = 1; allocate(f, n); OBL(0, "always fails"); }
    else if(k < 14) { p = allocate(m, n); OBL(n == last && n, "size"); }
    else if(k < 27) p = allocate(g, n); else { p = allocate(b, n); for(nb_u64 i = 0; i < bn; i++) OBL(p[i] == (nb_u8)(i * 7), "content is preserved"); if(n > bn) bn = n; for(nb_u64 i = 0; i < bn; i++) p[i] = i * 7; bp = p; continue; }
    OBL(n && p, "memory"); for(unsigned i = 0; i < np; i++) OBL(p + n <= pl[i] || p >= pl[i] + sz[i], "memory does not overlap"); if(bp) OBL(p + n <= bp || p >= bp + bn, "memory does not overlap"); pl[np] = p; sz[np++] = n; for(nb_u64 i = 0; i < n; i++) p[i] = 0x5A; }
  for(nb_u64 i = 0; i < bn; i++) OBL(bp[i] == (nb_u8)(i * 7), "content is preserved");
  CR_RegionRelease(r);
}
