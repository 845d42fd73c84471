/*NB-UNIT
{ "src": "allocator.c", "props": ["C23","C18"],
  "targets": ["allocate","allocatorWrapMalloc","allocatorWrapRegion","allocatorWrapOneSingleGrowableBuffer","allocatorWrapAlwaysFailing"],
  "entries": ["p_malloc","p_region","p_growable","p_failing"],
  "mode": "P", "cppdefs": ["-Dmalloc=NBC_malloc"], "confirm": ["w_allocator/n_allocator"],
  "unwind": 4, "timeout": 100,
  "assumes": ["malloc() as specified by the C standard", "regions and growable buffers as proved in units/region.c and units/growable.c"]
}
*/
//@POST
static void ondie(void);
#define NB_ON_DIE ondie()
//@include die.h
static _Bool mfail; static nb_u64 X_size; static int nmalloc, ngrow, X_kind; static struct CR_Region { int x; } reg; static void *m_obj; static struct Allocator AA; static char *buf; static nb_u64 buf_n;
static void ondie(void) { OBL(mfail || X_size == 0 || X_kind == 3, "error exit only when memory is exhausted or nothing is requested"); }
void *NBC_malloc(size_t n) { OBL(X_kind == 0 && nmalloc == 0 && n == X_size && n > 0, "one allocation of the requested size"); nmalloc++; if(nd_bool()) { mfail = 1; return 0; } return m_obj; }
void *CR_RegionAlloc(CR_Region *r, size_t n)
{
  OBL(r == &reg && nmalloc == 0, "memory of the region"); nmalloc++; if(nd_bool()) { mfail = 1; die(""); } if(X_size == ~0ul) { OBL(n == sizeof AA, "allocator"); return &AA; } OBL(X_kind == 1 && n == X_size, "one allocation of the requested size"); return m_obj;
}
void *CR_RegionAllocGrowable(CR_Region *r, size_t n) { OBL(r == &reg && n > 0 && X_kind == 2 && !buf, "one buffer"); if(nd_bool()) { mfail = 1; die(""); } buf = malloc(1); ASSUME(buf != 0); return buf; }
void *CR_EnsureCapacity(void *p, size_t n) { OBL(p == buf && p && n == X_size && X_kind == 2, "the buffer grows to the requested size"); ngrow++; if(nd_bool()) { mfail = 1; die(""); } if(nd_bool()) { free(buf); buf = malloc(1); ASSUME(buf != 0); } return buf; }
static void init(int k) { X_kind = k; mfail = 0; nmalloc = ngrow = 0; m_obj = malloc(1); ASSUME(m_obj != 0); buf = 0; X_size = ~0ul; }
static void one(Allocator *a) { OBL(a != 0, "allocator"); X_size = nd_u64(); ASSUME(X_size != ~0ul); nmalloc = 0; ngrow = 0; void *p = allocate(a, X_size); OBL(p == (X_kind == 2 ? buf : m_obj) && p && X_size > 0 && nmalloc + ngrow == 1, "memory of at least the requested size"); }
void p_malloc(void) { init(0); Allocator *a = allocatorWrapMalloc(); one(a); one(a); COVER("malloc"); }
void p_region(void) { init(1); Allocator *a = allocatorWrapRegion(&reg); one(a); one(a); COVER("region"); }
void p_growable(void) { init(2); Allocator *a = allocatorWrapOneSingleGrowableBuffer(&reg); one(a); one(a); one(a); COVER("growable"); }
void p_failing(void) { init(3); Allocator *a = allocatorWrapAlwaysFailing(); OBL(a != 0, "allocator"); COVER("failing"); X_size = nd_u64(); allocate(a, X_size); OBL(0, "always fails"); }
