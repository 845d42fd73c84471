/*NB-UNIT
{ "src": "third-party/CRegion/alloc-growable.c", "props": ["C23"],
  "targets": ["CR_RegionAllocGrowable","CR_EnsureCapacity"],
  "entries": ["p_new","p_ensure","p_null"],
  "mode": "P", "confirm": ["w_growable/n_growable"],
  "cppdefs": ["-Dmalloc=NBC_malloc","-Dfree=NBC_free","-Drealloc=NBC_realloc"],
  "rename_by_entry": {"p_null": ["*@CR_RegionAllocGrowable"]},
  "unwind": 4, "timeout": 250, "sat": "cadical",
  "assumes": ["malloc() and realloc() as specified by the C standard; they may fail", "CR_SafeAdd() as proved for C18"],
  "entry_props": {"p_ensure": ["C23", "C05", "C18"], "p_new": ["C23", "C18"]}
}
*/
//@POST
static void ondie(void);
#define NB_ON_DIE ondie()
//@include die.h
static _Bool mfail, overflow; static nb_u64 X_size; static char *m_obj; static nb_u64 m_size; static int nmalloc, nfree, nattach; static struct CR_Region { int x; } reg, glob; static void *slot; static void *freed; static CR_ReleaseCallback *X_f; static void *X_d; static nb_u64 w; static nb_u8 wv; static _Bool X_grow;
static void run(void) { OBL(nattach == 1, "attached"); X_f(X_d); OBL(nfree == 1 && freed == m_obj, "memory is released exactly once with its region"); }
static void ondie(void) { OBL(mfail || overflow || X_size == 0, "error exit only when memory is exhausted or nothing is requested"); if(X_grow) OBL(slot == m_obj, "memory is released at exit"); }
size_t CR_SafeAdd(size_t a, size_t b) { nb_u64 s; if(__builtin_add_overflow(a, b, &s)) { overflow = 1; die(""); } return s; }
void *NBC_malloc(size_t n) { OBL(n > 0 && nmalloc == 0, "one allocation"); nmalloc++; if(nd_bool()) { mfail = 1; return 0; } ASSUME(n <= 1ul << 46); m_size = n; m_obj = malloc(n); ASSUME(m_obj != 0); return m_obj; }
void NBC_free(void *p) { nfree++; freed = p; }
void *NBC_realloc(void *p, size_t n)
{
  OBL(p == m_obj && n > 0 && nmalloc == 0, "memory of the buffer"); nmalloc++; if(nd_bool()) { mfail = 1; return 0; } ASSUME(n <= 1ul << 46); char *q = malloc(n); ASSUME(q != 0); nb_u64 h = __CPROVER_OBJECT_SIZE(p) - m_size; OBL(n >= h, "header"); for(int i = 0; i < 3; i++) if(i < h / 8) ((nb_u64 *)q)[i] = ((nb_u64 *)p)[i]; if(h + w < n) q[h + w] = ((char *)p)[h + w]; free(p); m_obj = q; return q;
}
void *CR_RegionAlloc(CR_Region *r, size_t n) { OBL(r == &reg && n == sizeof slot, "memory of the region"); if(nd_bool()) { mfail = 1; die(""); } return &slot; }
void CR_RegionAttach(CR_Region *r, CR_ReleaseCallback *f, void *d) { OBL(r == &reg && nattach == 0, "released with the region"); nattach++; X_f = f; X_d = d; if(nd_bool()) { mfail = 1; X_size = 0; run(); die(""); } }
CR_Region *CR_GetGlobalRegion(void) { return &glob; }
static void init(void) { mfail = overflow = X_grow = 0; nmalloc = nfree = nattach = 0; slot = 0; m_obj = 0; X_size = nd_u64(); }
void p_new(void)
{
  init(); char *p = CR_RegionAllocGrowable(&reg, X_size); OBL(X_size > 0 && p != 0 && __CPROVER_w_ok(p, X_size) && __CPROVER_same_object(p, m_obj), "at least the requested size"); OBL(__CPROVER_POINTER_OFFSET(p) % 8 == 0, "aligned"); OBL(slot == m_obj, "memory of the region"); COVER("new"); run();
}
/* a buffer of any size as created by CR_RegionAllocGrowable(), grown any
   number of times: its header is arbitrary but consistent */
void p_ensure(void)
{
  init(); nb_u64 first = nd_u64(); ASSUME(first > 0 && first <= 1ul << 46); nb_u64 want = X_size; X_size = first; char *p = CR_RegionAllocGrowable(&reg, first); nb_u64 h = p - m_obj; m_size = first;
  w = nd_u64(); ASSUME(w < first); wv = p[w] = nd_u8(); nmalloc = 0; X_size = want; X_grow = 1; char *q = CR_EnsureCapacity(p, want);
  OBL(want > 0 && q != 0 && __CPROVER_w_ok(q, want), "at least the requested size"); OBL(__CPROVER_w_ok(q, first) || want > first, "never smaller than before"); OBL((nb_u8)q[w] == wv, "content is preserved"); OBL(__CPROVER_same_object(q, m_obj) && q - m_obj == h && slot == m_obj, "memory of the region");
  if(nmalloc) { COVER("grown"); OBL(q != p, "moved"); } else { OBL(q == p, "kept"); COVER("kept"); }
  OBL(((Header *)q - 1)->attached_pointer == &slot && ((Header *)q - 1)->capacity <= __CPROVER_OBJECT_SIZE(q) - h, "header is consistent: the buffer can grow again"); run();
}
static void *NBC_CR_RegionAllocGrowable(CR_Region *r, size_t n) { OBL(r == &glob && n == X_size && n > 0, "lifetime of the program"); return &slot; }
void p_null(void) { init(); void *p = CR_EnsureCapacity(0, X_size); OBL(p == &slot && X_size > 0, "new buffer"); COVER("null"); }
