/* Contracts of memcmp/strlen for objects of any size: the result is tied to
   one arbitrary watched index (equality) or to a witness (difference). */
#ifdef NB_MODE_P
static nb_u64 nb_watch;   /* arbitrary, fixed index */
struct nb_view3 { void *a, *b, *c; };
/* memcpy: exact for the size of a StringView; otherwise the bytes at the
   watched index are copied and all other destination bytes are arbitrary. */
void *memcpy(void *d, const void *s, nb_u64 n)
{
  OBL(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "memcpy: source readable, destination writable");
  OBL(n == 0 || !__CPROVER_same_object(s, d) || (const char *)s + n <= (char *)d || (char *)d + n <= (const char *)s, "memcpy: no overlap");
  if(n == 24) { *(struct nb_view3 *)d = *(const struct nb_view3 *)s; return d; }
  if(n == 0) return d;
#ifdef NB_MEMCPY_SMALL
#ifndef NB_MEMCPY_LIMIT
#define NB_MEMCPY_LIMIT 8
#endif
  if(n <= NB_MEMCPY_LIMIT) { for(nb_u64 i = 0; i < NB_MEMCPY_LIMIT; i++) if(i < n) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#endif
#ifndef NB_MEMCPY_FRESH
  __CPROVER_havoc_slice(d, n);
#endif
  if(nb_watch < n) ((char *)d)[nb_watch] = ((const char *)s)[nb_watch];
  return d;
}
int memcmp(const void *a, const void *b, nb_u64 n)
{
  OBL(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "memcmp: both areas readable");
  if(n == 0 || nd_bool()) {
    if(nb_watch < n) ASSUME(((const nb_u8 *)a)[nb_watch] == ((const nb_u8 *)b)[nb_watch]);
    return 0; }
  nb_u64 j = nd_u64(); ASSUME(j < n);
  int d = (int)((const nb_u8 *)a)[j] - (int)((const nb_u8 *)b)[j];
  ASSUME(d != 0);
  return d;
}
#endif
