/* Contracts of the allocation functions (src/allocator.c, third-party/CRegion;
   proved separately for C23). allocate(): fresh memory of at least the
   requested size or an error exit. A single growable buffer loses its
   previous content with every allocation: modelled by freeing it. */
struct Allocator { int kind; void *prev; nb_u64 prev_size; CR_Region *r; };
#ifndef NB_MAX_ALLOCATORS
#define NB_MAX_ALLOCATORS 12
#endif
static struct Allocator nb_allocators[NB_MAX_ALLOCATORS]; static unsigned nb_n_allocators;
static struct Allocator nb_alloc_malloc = {0};
#ifndef NB_ALLOC_MAX
#define NB_ALLOC_MAX (1ul << 46)
#endif
static void *nb_fresh(nb_u64 size)
{
  OBL(size > 0, "allocation of more than zero bytes");
#ifdef NB_ALLOC_DIE
  if(size > NB_ALLOC_DIE) { NB_ON_DIE; NB_STOP("out of memory"); }
#endif
  ASSUME(size <= NB_ALLOC_MAX); /* larger requests end with an error exit */
#ifdef NB_ALLOC_HOOK
  { void *h = NB_ALLOC_HOOK(size); if(h) return h; } /* typed object with arbitrary content, at most once each */
#endif
  void *p = malloc(size);
  ASSUME(p != 0);
#ifdef NB_NATIVE
  for(nb_u64 i = 0; i < size; i++) ((nb_u8 *)p)[i] = 0xA5;
#endif
  return p;
}
static Allocator *nb_new_allocator(int kind, CR_Region *r)
{
  ASSUME(nb_n_allocators < NB_MAX_ALLOCATORS);
  struct Allocator *a = &nb_allocators[nb_n_allocators++];
  a->kind = kind; a->prev = 0; a->r = r;
  return a;
}
void *allocate(Allocator *a, size_t size)
{
  OBL(a != 0, "valid allocator");
  if(a->kind == 2 && a->prev)
  {
#ifdef NB_NATIVE
    /* the content is preserved, the old memory is invalid */
    nb_u8 *q = nb_fresh(size > a->prev_size ? size : a->prev_size);
    for(nb_u64 i = 0; i < a->prev_size; i++) { q[i] = ((nb_u8 *)a->prev)[i]; ((nb_u8 *)a->prev)[i] = 0xDD; }
    if(size > a->prev_size) a->prev_size = size;
    a->prev = q; return q;
#else
    free(a->prev);
#endif
  }
  void *p = nb_fresh(size);
  if(a->kind == 2) { a->prev = p; a->prev_size = size; }
  return p;
}
Allocator *allocatorWrapMalloc(void) { return &nb_alloc_malloc; }
Allocator *allocatorWrapRegion(CR_Region *r) { return nb_new_allocator(1, r); }
Allocator *allocatorWrapOneSingleGrowableBuffer(CR_Region *r) { return nb_new_allocator(2, r); }
/* regions: attached cleanup functions run once, in reverse order */
#ifndef NB_MAX_ATTACH
#define NB_MAX_ATTACH 3
#endif
struct CR_Region { int released; unsigned n; struct { CR_ReleaseCallback *f; void *d; } at[NB_MAX_ATTACH]; };
static CR_Region nb_global_region;
CR_Region *CR_RegionNew(void) { CR_Region *r = nb_fresh(sizeof *r); r->released = 0; r->n = 0; return r; }
CR_Region *CR_GetGlobalRegion(void) { return &nb_global_region; }
void *CR_RegionAlloc(CR_Region *r, size_t size) { OBL(r && !r->released, "allocation from a live region"); return nb_fresh(size); }
void *CR_RegionAllocUnaligned(CR_Region *r, size_t size) { OBL(r && !r->released, "allocation from a live region"); return nb_fresh(size); }
void CR_RegionAttach(CR_Region *r, CR_ReleaseCallback *f, void *d)
{
  OBL(r && !r->released, "attach to a live region");
  ASSUME(r->n < NB_MAX_ATTACH);
  r->at[r->n].f = f; r->at[r->n].d = d; r->n++;
}
void CR_RegionRelease(CR_Region *r)
{
  OBL(r && !r->released, "region released once");
  r->released = 1;
#if NB_MAX_ATTACH > 3
  for(unsigned i = r->n; i > 3; i--) r->at[i - 1].f(r->at[i - 1].d);
#endif
  if(r->n > 2) r->at[2].f(r->at[2].d);
  if(r->n > 1) r->at[1].f(r->at[1].d);
  if(r->n > 0) r->at[0].f(r->at[0].d);
}
