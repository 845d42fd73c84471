/*NB-UNIT
{ "src": "string-table.c", "props": ["C16"],
  "targets": ["strTableNew","strTableMap","strTableGet"],
  "entries": ["p_new", "p_get0", "p_get1", "p_get2", "p_get3", "p_map0", "p_map1", "p_map2", "p_map3", "p_map4", "p_map5", "p_map6", "p_map7", "p_map8", "p_grow0", "p_grow1", "p_grow2", "p_grow3", "p_grow4", "p_grow5", "p_grow6", "p_grow7", "p_grow8"],
  "mode": "P", "confirm": ["w_strtable/n_map"],
  "needs": {"p_map0": ["doubleTableCapacity"], "p_map1": ["doubleTableCapacity"], "p_map2": ["doubleTableCapacity"], "p_map3": ["doubleTableCapacity"], "p_map4": ["doubleTableCapacity"], "p_map5": ["doubleTableCapacity"], "p_map6": ["doubleTableCapacity"], "p_map7": ["doubleTableCapacity"], "p_map8": ["doubleTableCapacity"], "p_grow0": ["doubleTableCapacity"], "p_grow1": ["doubleTableCapacity"], "p_grow2": ["doubleTableCapacity"], "p_grow3": ["doubleTableCapacity"], "p_grow4": ["doubleTableCapacity"], "p_grow5": ["doubleTableCapacity"], "p_grow6": ["doubleTableCapacity"], "p_grow7": ["doubleTableCapacity"], "p_grow8": ["doubleTableCapacity"]},
  "rename_by_entry": {"p_map0": ["*@doubleTableCapacity"], "p_map1": ["*@doubleTableCapacity"], "p_map2": ["*@doubleTableCapacity"], "p_map3": ["*@doubleTableCapacity"], "p_map4": ["*@doubleTableCapacity"], "p_map5": ["*@doubleTableCapacity"], "p_map6": ["*@doubleTableCapacity"], "p_map7": ["*@doubleTableCapacity"], "p_map8": ["*@doubleTableCapacity"]},
  "unwind": 36, "bunwind": 10, "timeout": 300, "sat": "cadical",
  "state": ["moved"],
  "gen": {"Bucket *": "nb_bucket_gen()"},
  "cppdefs": ["-Dmemset=NBC_memset"],
  "cands": ["!nb_gr() || $u <= nb_pi || nb_reach()", "!nb_gr() || (nb_any($p(Bucket *)) && $u <= nb_pi) || nb_reach()", "!nb_gr() || $u != nb_pi || nb_inbl($p(Bucket *))", "!nb_gr() || $u != nb_pi || nb_pos($p(Bucket *)) <= nb_B || nb_reach()", "!nb_gr() || nb_okay()", "!nb_gr() || $u <= nb_s || arr[nb_s] == 0",
    "nb_B >= nb_pos($p(Bucket *)) || !nb_hit()", "$u <= $p(StringTable *)->capacity"],
  "assumes": ["siphash() is a function of key and secret", "strIsEqual() compares length and bytes (C17)"]
}
*/
//@PRE
struct nb_G { _Bool moved; };
//@MID
extern struct nb_G G; extern nb_u64 nb_B; void *NBC_memset(void *, int, size_t); extern nb_u64 nb_pi, nb_s; _Bool nb_gr(void), nb_reach(void), nb_okay(void), nb_any(const Bucket *), nb_inbl(const Bucket *); void nb_extra(void); extern Bucket **arr;
#define NB_HAVOC_EXTRA nb_extra();
Bucket *nb_bucket_gen(void); nb_u64 nb_pos(const Bucket *); _Bool nb_hit(void);
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_B;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static int X_mode; static nb_u64 H; static char kc[1], oc[1]; static StringView K; static nb_u8 eqs[6]; static struct CR_Region { int x; } reg; static Bucket NEWB; static struct StringTable T; static _Bool w_alloc, w_attach, w_grown; static nb_u8 secret[16]; Bucket **arr; nb_u64 nb_pi, nb_s;
//@include list.h
static _Bool X_has; static nb_u64 BL_w;
static void fill_b(Bucket *b, nb_u64 pos) { _Bool e = X_has && (pos == BL_w || (pos > BL_w && nd_bool())); b->hash = e ? H : nd_u64(); SV_SET(b->key, oc, e, 0); b->data = (void *)nd_u64(); }
NB_LIST(Bucket, BL, next, fill_b)
/* growth (X_mode 2): BL is the chain at index nb_pi holding the watched
   bucket, OL the chain at any other index, nb_s the watched slot of the new
   array: BA is a bucket from which the watched one is reachable, BV any old
   bucket followed by old ones only. */
static void fill_o(Bucket *b, nb_u64 pos) { b->hash = nd_u64(); SV_SET(b->key, oc, 0, 0); b->data = (void *)nd_u64(); }
NB_LIST(Bucket, OL, next, fill_o)
static Bucket BA, BV;
_Bool nb_gr(void) { return X_mode == 2; }
Bucket *nb_bucket_gen(void) { return X_mode == 2 && nd_bool() ? OL_gen() : BL_gen(); }
_Bool nb_any(const Bucket *b) { return 1; }
_Bool nb_inbl(const Bucket *b) { return NB_POS(BL, b) != ~0ul; }
static _Bool in_any(const Bucket *b) { return b != 0 && (NB_POS(BL, b) != ~0ul || NB_POS(OL, b) != ~0ul); }
_Bool nb_reach(void) { Bucket *x = arr[nb_s]; return !X_has || x == &BL_W || x == &BA || (in_any(x) && (x->next == &BL_W || x->next == &BA)); }
_Bool nb_okay(void) { Bucket *x = arr[nb_s]; return X_has || x == 0 || x == &BV || (in_any(x) && (x->next == 0 || x->next == &BV)); }
void nb_extra(void) { if(X_mode == 2) arr[nb_s] = X_has ? (nd_bool() ? &BL_W : nd_bool() ? &BA : nd_bool() ? &BV : 0) : nd_bool() ? &BV : nd_bool() ? &BA : 0; }
nb_u64 nb_pos(const Bucket *b) { return NB_POS(BL, b); }
static _Bool iseq(const Bucket *b) { return b->key.length == 1; }
_Bool nb_hit(void) { return X_has; }
bool strIsEqual(StringView a, StringView b) { OBL((a.content == kc) != (b.content == kc), "compared with the key"); return (a.content == kc ? b.length : a.length) == 1; }
void strSet(StringView *a, StringView b) { SV_CPY(*a, b); }
uint64_t siphash(const uint8_t *s, const size_t n, const uint8_t k[16]) { OBL((const char *)s == kc && n == K.length, "hash of the key"); for(int i = 0; i < 16; i++) OBL(k[i] == secret[i], "secret of the table"); return H; }
size_t sSizeMul(size_t a, size_t b) { __uint128_t p = (__uint128_t)a * b; if(p >> 64) { nb_may_die = 1; die(""); } return (size_t)p; }
static nb_u64 n1, n2; static Bucket **arr1, **arr2; static Bucket *X_head;
void *sMalloc(size_t n) { OBL(n > 0, "size"); if(X_mode == 2) { OBL(n == 2 * T.capacity * sizeof(Bucket *), "size of the new array"); ASSUME(n2 >= T.capacity * 2 && n2 <= T.capacity * 2); arr = arr2; return arr2; } void *p = malloc(n); ASSUME(p != 0); arr = p; return p; }
void *NBC_memset(void *p, int v, size_t n) { OBL(p == arr && v == 0, "the whole array is initialized"); if(X_mode == 2) { OBL(n == 2 * T.capacity * sizeof(Bucket *), "the whole array is initialized"); arr[nb_s] = 0; return p; } for(nb_u64 i = 0; i < n / sizeof(Bucket *); i++) arr[i] = 0; return p; }
int sRand(void) { return nd_u32() >> 1; }
void *CR_RegionAlloc(CR_Region *r, size_t n) { OBL(r == &reg && !w_alloc, "memory of the table's region"); w_alloc = 1; if(X_mode == 0) { OBL(n == sizeof T, "size"); return &T; } OBL(n == sizeof NEWB, "size"); return &NEWB; }
void CR_RegionAttach(CR_Region *r, CR_ReleaseCallback *f, void *d) { OBL(r == &reg && d == &T, "released with the region"); w_attach = 1; }
/* A table whose chain of the key is BL. Its capacity is the initial one of
   strTableNew() or follows from it by repeated growth (p_grow): a case
   distinction over every capacity that fits into memory. */
static nb_u64 id, cap0;
static nb_u64 initial(void) { X_mode = 0; w_alloc = 0; strTableNew(&reg); return T.capacity; }
static void table(void)
{
  X_mode = 1; w_alloc = w_grown = 0; T.region = &reg; T.associations = nd_u64(); for(int i = 0; i < 16; i++) T.secret_key[i] = secret[i] = nd_u8(); H = nd_u64();
  n1 = nd_u64(); n2 = nd_u64(); ASSUME(n1 < (1ul << 43) && n2 < (1ul << 43)); arr1 = malloc(sizeof(Bucket *) * n1); arr2 = malloc(sizeof(Bucket *) * n2); ASSUME(arr1 != 0 && arr2 != 0); X_head = NB_NEW(BL); nb_B = BL_w; SV_SET(K, kc, nd_u64(), 0);
}
static void cap(nb_u64 c) { T.capacity = c; id = H % c; ASSUME(n1 >= c && n1 <= c); T.buckets = arr1; T.buckets[id] = X_head; }
void p_new(void)
{
  X_mode = 0; w_alloc = w_attach = 0; StringTable *t = strTableNew(&reg); OBL(t == &T && w_attach && t->region == &reg, "table is bound to its region"); OBL(t->capacity > 0 && t->associations == 0, "empty table"); OBL(__CPROVER_w_ok(t->buckets, t->capacity * sizeof(void *)), "size of the table");
  nb_u64 i = nd_u64(); ASSUME(i < t->capacity); OBL(t->buckets[i] == 0, "no associations"); COVER("new");
}
static void get(nb_u64 c0, nb_u64 cn)
{
  nb_u64 c = initial(), k = nd_le(cn - 1); c <<= c0; X_has = nd_bool(); table(); if(X_has) ASSUME(BL_L > 0); void *r = 0;
  for(nb_u64 i = 0; i < cn; i++) if(i == k) { cap(c << i); r = strTableGet(&T, K); break; }
  if(X_has) { OBL(r == BL_W.data, "the associated value is found"); COVER("found"); if(BL_w > 4) COVER("late"); } else { OBL(r == 0, "nothing is found for keys never mapped"); COVER("not found"); if(BL_L > 4) COVER("long chain"); }
  OBL(T.buckets[id] == NB_AT(BL, 0), "table is not changed");
}
static nb_u64 X_j; static void *X_old;
static void NBC_doubleTableCapacity(StringTable *t)
{
  OBL(t == &T && !w_alloc, "table"); w_grown = 1; MAYDIE; nb_u64 c = T.capacity * 2; T.capacity = c; ASSUME(n2 >= c && n2 <= c); T.buckets = arr2; id = H % c; T.buckets[id] = X_head; X_j = nd_le(c - 1); X_old = T.buckets[X_j];
}
static void map(nb_u64 c0, nb_u64 cn)
{
  nb_u64 c = initial(), k = nd_le(cn - 1); c <<= c0; X_has = nd_bool(); table(); nb_u64 a = T.associations; ASSUME(a < (1ul << 60)); void *d = (void *)nd_u64();
  for(nb_u64 i = 0; i < cn; i++) if(i == k) { cap(c << i); X_j = nd_le(T.capacity - 1); X_old = T.buckets[X_j]; strTableMap(&T, K, d); break; }
  OBL(T.buckets[id] == &NEWB && NEWB.next == X_head, "the new association is reachable, all older ones of its chain stay reachable"); if(X_j != id) OBL(T.buckets[X_j] == X_old, "other chains are not changed");
  OBL(NEWB.hash == H && NEWB.key.content == kc && NEWB.key.length == K.length && NEWB.data == d, "association"); OBL(T.associations == a + 1, "number of associations"); COVER("mapped"); if(w_grown) COVER("grown"); else COVER("not grown");
}
void p_get0(void) { get(0, 9); }
void p_get1(void) { get(9, 9); }
void p_get2(void) { get(18, 9); }
void p_get3(void) { get(27, 9); }
void p_map0(void) { map(0, 4); }
void p_map1(void) { map(4, 4); }
void p_map2(void) { map(8, 4); }
void p_map3(void) { map(12, 4); }
void p_map4(void) { map(16, 4); }
void p_map5(void) { map(20, 4); }
void p_map6(void) { map(24, 4); }
void p_map7(void) { map(28, 4); }
void p_map8(void) { map(32, 4); }
static void grow(nb_u64 c0, nb_u64 cn)
{
  nb_u64 c = initial(), k = nd_le(cn - 1); c <<= c0; X_has = nd_bool(); table(); X_mode = 2; Bucket *oh = NB_NEW(OL); if(X_has) ASSUME(BL_L > 0); arr = arr2; nb_u64 a = T.associations; void *d = BL_W.data;
  for(nb_u64 i = 0; i < cn; i++) if(i == k) {
    T.capacity = c << i; nb_pi = H & (T.capacity - 1); nb_s = H & (T.capacity * 2 - 1); ASSUME(n1 >= T.capacity && n1 <= T.capacity); T.buckets = arr1; __CPROVER_array_set(arr1, oh); arr1[nb_pi] = X_head;
    doubleTableCapacity(&T); OBL(T.capacity == (c << i) * 2, "capacity is doubled"); }
  OBL(T.buckets == arr2 && arr == arr2, "new array"); OBL(__CPROVER_r_ok(arr2, T.capacity * sizeof(Bucket *)), "new array is kept"); OBL(T.associations == a, "number of associations");
  if(X_has) { OBL(nb_reach(), "every association stays reachable from its slot"); OBL(BL_W.hash == H && iseq(&BL_W) && BL_W.data == d, "association is not changed"); COVER("grown"); }
  else { OBL(nb_okay(), "only old associations are reachable"); COVER("grown without the key"); }
}
void p_grow0(void) { grow(0, 4); }
void p_grow1(void) { grow(4, 4); }
void p_grow2(void) { grow(8, 4); }
void p_grow3(void) { grow(12, 4); }
void p_grow4(void) { grow(16, 4); }
void p_grow5(void) { grow(20, 4); }
void p_grow6(void) { grow(24, 4); }
void p_grow7(void) { grow(28, 4); }
void p_grow8(void) { grow(32, 4); }
