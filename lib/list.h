/* A singly linked list of NM##_L elements of any length.  Elements 0 and 1
   and the watched element at position NM##_w are fixed objects; a cursor at
   an arbitrary position gets a window of three consecutive elements whose
   other members are arbitrary.  fill(T*, pos) gives an element its arbitrary
   content (it must not touch the next member). In the bounded modes the list
   is an array of up to NB_LIST_K elements. */
#ifndef NB_LIST_K
#define NB_LIST_K 3
#endif
#define NB_LIST(T, NM, NEXT, FILL) \
static nb_u64 NM##_L, NM##_w; \
static T NM##_W, NM##_F, NM##_S, NM##_O0, NM##_O1, NM##_O2, NM##_bad; static nb_u64 NM##_p; \
static T NM##_arr[NB_LIST_K]; \
static T *NM##_at_p(nb_u64 pos) { \
  if(pos >= NM##_L) return (T *)0; if(pos == NM##_w) return &NM##_W; if(pos == 0) return &NM##_F; if(pos == 1) return &NM##_S; \
  if(pos == NM##_p) return &NM##_O0; if(pos == NM##_p + 1) return &NM##_O1; if(pos == NM##_p + 2) return &NM##_O2; return &NM##_bad; } \
static nb_u64 NM##_pos_p(const void *x) { \
  if(x == 0) return NM##_L; if(x == &NM##_W) return NM##_w; if(x == &NM##_F) return 0; if(x == &NM##_S) return 1; \
  if(x == &NM##_O0) return NM##_p; if(x == &NM##_O1) return NM##_p + 1; if(x == &NM##_O2) return NM##_p + 2; return ~0ul; } \
static void NM##_link(void) { \
  NM##_F.NEXT = NM##_at_p(1); NM##_S.NEXT = NM##_at_p(2); NM##_W.NEXT = NM##_at_p(NM##_w + 1); \
  NM##_O0.NEXT = NM##_at_p(NM##_p + 1); NM##_O1.NEXT = NM##_at_p(NM##_p + 2); NM##_O2.NEXT = NM##_at_p(NM##_p + 3); } \
static void NM##_init(nb_u64 len) { \
  NM##_L = len; NM##_w = nd_u64(); NM##_p = 2; ASSUME(len == 0 || NM##_w < len); \
  FILL(&NM##_W, NM##_w); FILL(&NM##_F, 0); FILL(&NM##_S, 1); FILL(&NM##_O0, 2); FILL(&NM##_O1, 3); FILL(&NM##_O2, 4); \
  NM##_link(); } \
static T *NM##_gen(void) { \
  NM##_p = nd_u64(); ASSUME(NM##_p <= NM##_L); \
  FILL(&NM##_O0, NM##_p); FILL(&NM##_O1, NM##_p + 1); FILL(&NM##_O2, NM##_p + 2); NM##_link(); \
  return NM##_at_p(NM##_p); } \
static void NM##_init_b(nb_u64 len) { \
  NM##_L = len; ASSUME(len <= NB_LIST_K); \
  for(nb_u64 i = 0; i < NB_LIST_K; i++) { if(i < len) { FILL(&NM##_arr[i], i); NM##_arr[i].NEXT = i + 1 < len ? &NM##_arr[i + 1] : (T *)0; } } } \
static T *NM##_at_b(nb_u64 pos) { return pos < NM##_L ? &NM##_arr[pos] : (T *)0; } \
static nb_u64 NM##_pos_b(const void *x) { for(nb_u64 i = 0; i < NB_LIST_K; i++) if(i < NM##_L && x == &NM##_arr[i]) return i; return x ? ~0ul : NM##_L; } \
static T *NM##_new(nb_u64 pmax) { NM##_init(nd_le(pmax)); return NM##_at_p(0); } \
static T *NM##_new_b(void) { NM##_init_b(nd_le(NB_LIST_K)); return NM##_at_b(0); }
#ifdef NB_MODE_P
#define NB_AT(NM, p) NM##_at_p(p)
#define NB_POS(NM, x) NM##_pos_p(x)
#define NB_NEW(NM) NM##_new(1ul << 40)
#else
#define NB_AT(NM, p) NM##_at_b(p)
#define NB_POS(NM, x) NM##_pos_b(x)
#define NB_NEW(NM) NM##_new_b()
#endif
