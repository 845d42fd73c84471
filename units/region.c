/*NB-UNIT
{ "src": "third-party/CRegion/region.c", "props": ["C23"],
  "targets": ["CR_RegionNew","CR_RegionAlloc","CR_RegionAllocUnaligned","CR_RegionAttach","CR_RegionRelease","releaseAllRegions"],
  "entries": ["p_alloc","p_unaligned","p_new","p_attach","p_release","p_all"],
  "mode": "P", "confirm": ["w_region/n_region"],
  "needs": {"p_attach": ["allocFromChunkWithPadding"], "p_all": ["releaseAllRegions"]},
  "cppdefs": ["-Dmalloc=NBC_malloc","-Dfree=NBC_free"],
  "rename_by_entry": {"p_attach": ["*@allocFromChunkWithPadding"], "p_all": ["*@CR_RegionRelease"]},
  "unwind": 4, "timeout": 250, "sat": "cadical",
  "state": ["i","j","k"],
  "gen": {"CallbackList *": "nb_cgen()", "ChunkList *": "nb_lgen()", "CR_Region *": "nb_ggen()"},
  "lv": [["region_list", "struct CR_Region *"]],
  "cands": ["$p(CallbackList *) == nb_cat()", "$p(ChunkList *) == nb_lat()", "region_list == nb_gat()", "G.i <= nb_n", "G.j <= nb_m", "G.k <= nb_r"],
  "assumes": ["malloc() returns fresh memory aligned for every type, or NULL", "CR_SafeAdd() and CR_SafeMultiply() as proved for C18"],
  "entry_props": {"p_alloc": ["C23", "C18"], "p_unaligned": ["C23", "C18"], "p_release": ["C23", "C19"], "p_attach": ["C23", "C19"]}
}
*/
//@PRE
struct nb_G { nb_u64 i, j, k; };
//@MID
extern struct nb_G G; extern nb_u64 nb_n, nb_m, nb_r; void *nb_cgen(void), *nb_lgen(void), *nb_ggen(void), *nb_cat(void), *nb_lat(void), *nb_gat(void);
//@POST
static void ondie(void);
#define NB_ON_DIE ondie()
//@include die.h
struct nb_G G; nb_u64 nb_n, nb_m, nb_r;
static struct CR_Region RG, PR, NX, HD; static int X_mode; static char *cbase[2]; static nb_u64 coff[2], csize[2]; static ChunkList *head0; static Chunk c0[2]; static nb_u64 X_size; static _Bool mfail, overflow; static int nmalloc; static char *m_obj; static nb_u64 m_size;
static char lh[16]; static CallbackList CB0, CBN; static CR_ReleaseCallback *X_f; static void *X_d; static int natexit; static _Bool afail;
static _Bool in_ok(const Chunk *c, const void *obj, nb_u64 size, _Bool al)
{
  nb_u64 off = __CPROVER_POINTER_OFFSET(c->chunk); return __CPROVER_same_object(c->chunk, obj) && c->bytes_used <= c->capacity && off <= size && c->capacity <= size - off && (!al || (off % 8 == 0 && c->bytes_used % 8 == 0)) && c->next_chunk_size >= 64 && c->next_chunk_size % 8 == 0;
}
/* every error exit leaves a region that can be released */
static void ondie(void)
{
  OBL(mfail || overflow || afail || X_size == 0, "error exit only when memory is exhausted or nothing is requested");
  if(X_mode == 1) OBL(RG.chunk_list == head0 || (m_obj && (char *)RG.chunk_list == m_obj && RG.chunk_list->next == head0), "allocated chunks are released at exit");
  if(X_mode == 2) OBL((RG.pending_callback == X_f && RG.pending_callback_data == X_d && RG.callback_list == (nb_n ? &CB0 : 0)), "cleanup function is called at exit");
}
size_t CR_SafeAdd(size_t a, size_t b) { nb_u64 s; if(__builtin_add_overflow(a, b, &s)) { overflow = 1; die(""); } return s; }
size_t CR_SafeMultiply(size_t a, size_t b) { OBL(b == 2, "doubled"); if(a >> 63) { overflow = 1; die(""); } return a * 2; }
void *NBC_malloc(size_t n)
{
  OBL(n > 0 && nmalloc == 0, "one allocation"); nmalloc++; if(nd_bool()) { mfail = 1; return 0; } ASSUME(n <= 1ul << 46); m_size = n; m_obj = malloc(n); ASSUME(m_obj != 0); return m_obj;
}
int atexit(void (*f)(void)) { OBL(f == releaseAllRegions && natexit == 0, "regions are released at exit"); natexit++; if(nd_bool()) { afail = 1; return 1; } return 0; }
static void chunk_(Chunk *c, int i)
{
  coff[i] = nd_u64(); csize[i] = nd_u64(); ASSUME(csize[i] <= 1ul << 46 && coff[i] <= csize[i]); cbase[i] = malloc(csize[i]); ASSUME(cbase[i] != 0); c->chunk = (unsigned char *)cbase[i] + coff[i]; c->bytes_used = nd_u64(); c->capacity = nd_u64(); c->next_chunk_size = nd_u64();
  ASSUME(in_ok(c, cbase[i], csize[i], i == 0)); c0[i] = *c;
}
static void alloc_(_Bool al)
{
  X_mode = 1; nmalloc = 0; m_obj = 0; mfail = overflow = afail = 0; chunk_(&RG.aligned, 0); chunk_(&RG.unaligned, 1); head0 = nd_bool() ? (ChunkList *)lh : 0; RG.chunk_list = head0; RG.callback_list = &CB0; X_f = RG.pending_callback = (CR_ReleaseCallback *)nd_u64(); X_d = RG.pending_callback_data = (void *)nd_u64(); RG.next = &NX; RG.prev = &PR;
  X_size = nd_u64(); char *p = al ? CR_RegionAlloc(&RG, X_size) : CR_RegionAllocUnaligned(&RG, X_size); Chunk *c = al ? &RG.aligned : &RG.unaligned, *o = al ? &RG.unaligned : &RG.aligned; int i = !al, k = !i; nb_u64 off = __CPROVER_POINTER_OFFSET(p);
  OBL(p != 0 && X_size > 0, "memory or an error exit"); OBL(__CPROVER_w_ok(p, X_size), "at least the requested size"); if(al) OBL(off % 8 == 0, "aligned");
  OBL(o->chunk == c0[k].chunk && o->bytes_used == c0[k].bytes_used && o->capacity == c0[k].capacity && o->next_chunk_size == c0[k].next_chunk_size, "other memory is not changed");
  if(nmalloc == 0) { OBL(__CPROVER_same_object(p, cbase[i]) && off >= coff[i] + c0[i].bytes_used && off + X_size <= coff[i] + c0[i].capacity, "fresh part of the chunk"); OBL(c->chunk == c0[i].chunk && c->capacity == c0[i].capacity && in_ok(c, cbase[i], csize[i], al) && coff[i] + c->bytes_used >= off + X_size, "part is not handed out again"); OBL(RG.chunk_list == head0, "list of chunks"); COVER("from chunk"); }
  else { OBL(__CPROVER_same_object(p, m_obj) && off >= sizeof(ChunkList), "fresh part of the new chunk"); OBL((char *)RG.chunk_list == m_obj && RG.chunk_list->next == head0, "every chunk is released with the region");
    if(__CPROVER_same_object(c->chunk, m_obj)) { OBL(in_ok(c, m_obj, m_size, al) && __CPROVER_POINTER_OFFSET(c->chunk) + c->bytes_used >= off + X_size, "part is not handed out again"); COVER("new chunk"); }
    else { OBL(c->chunk == c0[i].chunk && c->bytes_used >= c0[i].bytes_used && in_ok(c, cbase[i], csize[i], al), "current chunk is kept"); COVER("own chunk"); } }
  OBL(RG.callback_list == &CB0 && RG.pending_callback == X_f && RG.pending_callback_data == X_d && RG.next == &NX && RG.prev == &PR, "nothing else is changed");
}
void p_alloc(void) { alloc_(1); }
void p_unaligned(void) { alloc_(0); }
static _Bool init_ok(struct CR_Region *r, struct CR_Region *next)
{
  nb_u64 a = __CPROVER_POINTER_OFFSET(r), ab = __CPROVER_POINTER_OFFSET(r->aligned.chunk), ub = __CPROVER_POINTER_OFFSET(r->unaligned.chunk); OBL(__CPROVER_w_ok(r, sizeof *r), "memory of the region"); OBL(a >= sizeof(ChunkList) && a % 8 == 0, "region does not overlap the list of chunks");
  OBL(in_ok(&r->aligned, m_obj, m_size, 1) && in_ok(&r->unaligned, m_obj, m_size, 0), "chunks of a new region"); nb_u64 e = a + sizeof *r; OBL(ab + r->aligned.bytes_used >= e || ab + r->aligned.capacity <= 0, "memory of the region is not handed out"); OBL(ub + r->unaligned.bytes_used >= e, "memory of the region is not handed out");
  OBL(ab + r->aligned.capacity <= ub + r->unaligned.bytes_used || ub + r->unaligned.capacity <= ab + r->aligned.bytes_used, "chunks do not overlap"); OBL((char *)r->chunk_list == m_obj && r->chunk_list->next == 0, "chunk is released with the region"); OBL(r->callback_list == 0 && r->pending_callback == 0, "no cleanup function");
  OBL(region_list == r && r->prev == 0 && r->next == next && (!next || next->prev == r), "region is released at exit"); return 1;
}
void p_new(void)
{
  X_mode = 0; X_size = 1; natexit = 0; afail = mfail = overflow = 0; nmalloc = 0; m_obj = 0; NX.prev = 0; NX.next = &HD; struct CR_Region *old = region_list = nd_bool() ? &NX : 0; struct CR_Region *r = CR_RegionNew(); OBL(natexit == 1 && !afail, "regions are released at exit"); init_ok(r, old); OBL(NX.next == &HD, "other regions"); COVER("first");
  nmalloc = 0; m_obj = 0; struct CR_Region *q = CR_RegionNew(); OBL(q != r && natexit == 1, "second region"); init_ok(q, r); OBL(r->next == old, "other regions"); COVER("second");
}
static CallbackList CBE; static int nalloc;
static void *NBC_allocFromChunkWithPadding(struct CR_Region *r, size_t size) { OBL(r == &RG && size >= sizeof CBE && nalloc == 0, "element"); nalloc++; if(nd_bool()) { mfail = 1; die(""); } return &CBE; }
void p_attach(void)
{
  X_mode = 2; X_size = 1; mfail = overflow = afail = 0; nalloc = 0; nb_n = nd_u64(); RG.callback_list = nb_n ? &CB0 : 0; RG.pending_callback = 0; X_f = (CR_ReleaseCallback *)nd_u64(); X_d = (void *)nd_u64(); ASSUME(X_f != 0);
  CR_RegionAttach(&RG, X_f, X_d); OBL(RG.callback_list == &CBE && CBE.next == (nb_n ? &CB0 : 0) && CBE.callback == X_f && CBE.data == X_d && RG.pending_callback == 0, "cleanup functions are called in reverse order"); COVER("attached");
}
/* ---- release: nb_n callbacks, nb_m chunks; G.i, G.j done so far ---- */
static CallbackList CA, CB, CC; static nb_u64 cp_, lp_; static struct CR_Region *rg; static _Bool X_pend, pended; static ChunkList L0, L1, L2, LBAD; static CallbackList CBAD;
static void *cat(nb_u64 i) { return i >= nb_n ? (void *)0 : i == cp_ ? (void *)&CA : i == cp_ + 1 ? (void *)&CB : i == cp_ + 2 ? (void *)&CC : (void *)&CBAD; }
void *nb_cat(void) { return cat(G.i); }
static void cb_(void *d) { OBL(G.j == 0, "memory is still alive during cleanup"); if(d == (void *)~0ul) { OBL(X_pend && !pended && G.i == 0, "pending cleanup function is called first"); pended = 1; return; } OBL(d == (void *)G.i && G.i < nb_n, "every cleanup function is called once, the last one attached is called first"); G.i++; }
static void clink(void) { CA.callback = CB.callback = CC.callback = cb_; CA.data = (void *)cp_; CB.data = (void *)(cp_ + 1); CC.data = (void *)(cp_ + 2); CA.next = cat(cp_ + 1); CB.next = cat(cp_ + 2); CC.next = (CallbackList *)nd_u64(); }
void *nb_cgen(void) { cp_ = nd_le(nb_n); clink(); return cat(cp_); }
static void *lat(nb_u64 i) { return i >= nb_m ? (void *)0 : i == lp_ ? (void *)&L0 : i == lp_ + 1 ? (void *)&L1 : i == lp_ + 2 ? (void *)&L2 : (void *)&LBAD; }
void *nb_lat(void) { return lat(G.j); }
static void llink(void) { L0.next = lat(lp_ + 1); L1.next = lat(lp_ + 2); L2.next = (ChunkList *)nd_u64(); }
void *nb_lgen(void) { lp_ = nd_le(nb_m); llink(); return lat(lp_); }
void NBC_free(void *p) { OBL(G.j < nb_m && p == lat(G.j), "every chunk is released once"); OBL(G.i == nb_n && (!X_pend || pended), "cleanup functions are called before memory is released"); ((ChunkList *)p)->next = (ChunkList *)nd_u64(); G.j++; if(G.j == nb_m) free(rg); }
void p_release(void)
{
  X_mode = 3; X_size = 1; G.i = G.j = 0; nb_n = nd_u64(); nb_m = nd_u64(); ASSUME(nb_m > 0 && nb_n < 1ul << 40 && nb_m < 1ul << 40); cp_ = lp_ = 0; clink(); llink(); rg = malloc(sizeof *rg); ASSUME(rg != 0); rg->callback_list = cat(0); rg->chunk_list = lat(0); X_pend = nd_bool(); pended = 0; rg->pending_callback = X_pend ? cb_ : 0; rg->pending_callback_data = (void *)~0ul;
  struct CR_Region *p = nd_bool() ? &PR : 0, *n = nd_bool() ? &NX : 0, *h = p ? nd_bool() ? &PR : &HD : rg; rg->prev = p; rg->next = n; PR.next = rg; NX.prev = rg; NX.next = &HD; PR.prev = &HD; region_list = h; struct CR_Region *q = rg;
  CR_RegionRelease(q); OBL(G.i == nb_n && G.j == nb_m && (!X_pend || pended), "all memory and cleanup functions are released"); OBL(region_list == (p ? h : n), "region is not released again"); if(p) OBL(PR.next == n, "region is not released again"); if(n) OBL(NX.prev == p, "other regions stay in the list"); OBL(NX.next == &HD && PR.prev == &HD, "other regions stay in the list");
  COVER("released"); if(nb_n > 3 && nb_m > 3) COVER("many");
}
/* ---- exit: G.k regions are released already, RA is the first of the rest ---- */
static struct CR_Region RA, RB; static struct CR_Region *gat(nb_u64 k) { return k >= nb_r ? 0 : k & 1 ? &RA : &RB; } void *nb_gat(void) { return gat(G.k); } void *nb_ggen(void) { return gat(nd_le(nb_r)); }
void NBC_CR_RegionRelease(struct CR_Region *r) { OBL(G.k < nb_r && r == gat(G.k) && region_list == r, "every region is released once"); G.k++; region_list = gat(G.k); }
void p_all(void) { G.k = 0; nb_r = nd_u64(); ASSUME(nb_r < 1ul << 40); region_list = gat(0); releaseAllRegions(); OBL(G.k == nb_r && region_list == 0, "all regions are released"); COVER("all"); }
