/* Runtime of the verification harnesses.  One harness text has three uses:
   NB_MODE_P: proof (loops cut by invariants, unbounded), NB_MODE_B: bounded
   search with CBMC, NB_NATIVE: replay of a counterexample by gcc-compiled
   real code.  Only builtin types here: it is included before any header. */
#ifndef NB_H
#define NB_H
typedef unsigned char nb_u8;
typedef unsigned int nb_u32;
typedef unsigned long nb_u64;
typedef long nb_s64;
#define NB_CAT_(a, b) a##b
#define NB_CAT(a, b) NB_CAT_(a, b)

void *malloc(unsigned long); void free(void *);
#ifdef NB_NATIVE
nb_u64 nb_native_next(void);
void nb_native_fail(const char *what);
void nb_native_assume(const char *what);
void nb_native_end(const char *what);
void nb_native_cover(const char *what);
#define OBL(c, name) do { if(!(c)) nb_native_fail(name); } while(0)
#define ASSUME(c) do { if(!(c)) nb_native_assume(#c); } while(0)
#define COVER(name) nb_native_cover(name)
#define NB_STOP(name) nb_native_end(name)
static nb_u64 nd_u64(void) { return nb_native_next(); }
#define __CPROVER_assume(c) ASSUME(c)
#define __CPROVER_assert(c, d) OBL(c, d)
#else
#define OBL(c, name) __CPROVER_assert(c, "NB:" name)
#define ASSUME(c) __CPROVER_assume(c)
#define COVER(name) __CPROVER_assert(0, "COVER:" name)
#define NB_STOP(name) __CPROVER_assume(0)
nb_u64 nondet_nb_u64(void);
static nb_u64 nd_u64(void) { nb_u64 nd_v = nondet_nb_u64(); __CPROVER_input("nd", nd_v); return nd_v; }
#endif
static nb_u32 nd_u32(void) { return (nb_u32)nd_u64(); }
static nb_u8 nd_u8(void) { return (nb_u8)nd_u64(); }
static int nd_int(void) { return (int)nd_u64(); }
static _Bool nd_bool(void) { return nd_u64() & 1; }
static nb_u64 nd_le(nb_u64 max) { nb_u64 v = nd_u64();
#ifdef NB_NATIVE
  if(v > max) v = (max == ~0ul) ? v : v % (max + 1);
#else
  ASSUME(v <= max);
#endif
  return v; }
static nb_u64 nd_range(nb_u64 lo, nb_u64 hi) { return lo + nd_le(hi - lo); }
#define IMPLIES(a, b) (!(a) || (b))
/* Byte-wise equality of two objects, used to check that a local which the
   loop invariant keeps was indeed not modified by the loop. */
static _Bool nb_bytes_eq(const void *a, const void *b, nb_u64 n)
{
  const nb_u8 *x = a, *y = b;
  for(nb_u64 i = 0; i < n; i++) if(x[i] != y[i]) return 0;
  return 1;
}
/* No ghost state unless the unit defines one. */
#endif
