/*NB-UNIT
{ "src": "integrity.c", "props": ["C13"],
  "targets": ["checkIntegrity"],
  "entries": ["p_check"],
  "mode": "P", "confirm": ["w_integrity/n_integrity"],
  "needs": {"p_check": ["checkIntegrityRecursively"]},
  "rename_by_entry": {"p_check": ["checkIntegrityRecursively@checkIntegrityRecursively"]},
  "unwind": 22, "timeout": 300, "sat": "cadical",
  "state": ["rep","rec","cur","own","xrep","head","whead","xprev","val","pass"],
  "lv": [["ctx->broken_nodes","ListOfBrokenPathNodes *"],["ctx->files_to_check_total_size","uint64_t"],["nb_cX.next","ListOfBrokenPathNodes *"],["nb_cW.next","ListOfBrokenPathNodes *"],["nb_cW.node","const PathNode *"]],
  "gen": {"PathHistory *": "nb_hist_gen()", "PathNode *": "nb_node_gen()"},
  "cands": ["nb_own($p(PathNode *), $p(PathHistory *))", "nb_pos($p(PathNode *)) <= nb_NL()", "G.rep || nb_W >= nb_pos($p(PathNode *)) || !nb_bad() || G.pass < 2", "G.rep || nb_W != nb_pos($p(PathNode *)) || nb_HW >= nb_hpos($p(PathHistory *)) || !nb_bad() || G.pass < 2",
            "G.rec || nb_W >= nb_pos($p(PathNode *)) || nb_W >= nb_NL()", "!G.rep || nb_W < nb_pos($p(PathNode *))", "G.val == 0 || G.val == (G.pass == 2 && nb_xbad() ? 2 : 1)", "G.pass == 2 || (!G.rep && !G.xrep && G.head == 0)", "G.head <= 2 && G.whead <= 2 && G.xprev <= 2", "ctx->broken_nodes == nb_cell(G.head)", "!G.rep || (nb_cW.next == nb_cell(G.whead) && nb_isW(nb_cW.node))", "!G.xrep || nb_cX.next == nb_cell(G.xprev)"],
  "assumes": ["the string table behaves like a map (C16)", "fileHash() computes the hash of the whole content (C06)", "repoBuildRegularFilePath() is injective (C05)"]
}
*/
//@PRE
struct nb_G { _Bool rep, rec, cur, own, xrep; nb_u32 head, whead, xprev; nb_u64 val, pass; };
//@MID
extern struct nb_G G; extern nb_u64 nb_W, nb_HW; PathHistory *nb_hist_gen(void); PathNode *nb_node_gen(void); nb_u64 nb_hpos(const PathHistory *), nb_pos(const PathNode *), nb_NL(void); _Bool nb_own(const PathNode *, const PathHistory *), nb_bad(void), nb_xbad(void), nb_isW(const PathNode *);
extern ListOfBrokenPathNodes nb_cW, nb_cX; ListOfBrokenPathNodes *nb_cell(nb_u32);
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_W, nb_HW; ListOfBrokenPathNodes nb_cW, nb_cX;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
ListOfBrokenPathNodes *nb_cell(nb_u32 i) { return i == 0 ? 0 : i == 1 ? &nb_cW : &nb_cX; }
static RegularFileInfo X; static _Bool X_exists; static struct stat X_st; static nb_u8 X_h[20]; static char buf[1], kc[2], full[2], rp[1]; static StringView X_repo; static PathNode subW, subX; static struct StringTable { int x; } tabs[3]; static struct Allocator { int x; } al, alg;
//@include list.h
static void fill_h(PathHistory *p, nb_u64 pos) { p->state.type = nd_le(3); RegularFileInfo *f = &p->state.metadata.file_info; f->permission_bits = nd_u32(); if(f->permission_bits & 1) { f->size = X.size; for(int i = 0; i < 20; i++) f->hash[i] = X.hash[i]; f->slot = X.slot; } else { f->size = nd_u64(); f->slot = nd_u8(); f->hash[0] = nd_u8(); } }
NB_LIST(PathHistory, HL, next, fill_h)
NB_LIST(PathHistory, HX, next, fill_h)
PathHistory *nb_hist_gen(void) { if(nd_bool()) return HL_gen(); return HX_gen(); }
static _Bool inHL(const PathHistory *p) { return p == &HL_W || p == &HL_F || p == &HL_S || p == &HL_O0 || p == &HL_O1 || p == &HL_O2; }
static _Bool inHX(const PathHistory *p) { return p == &HX_W || p == &HX_F || p == &HX_S || p == &HX_O0 || p == &HX_O1 || p == &HX_O2; }
nb_u64 nb_hpos(const PathHistory *p) { return inHL(p) ? NB_POS(HL, p) : p == 0 ? ~0ul - 1 : ~0ul; }
static void fill_n(PathNode *n, nb_u64 pos);
NB_LIST(PathNode, NL, next, fill_n)
static void fill_n(PathNode *n, nb_u64 pos) { n->hint = BH_none; n->policy = nd_le(3); n->history = n == &NL_W ? NB_AT(HL, 0) : NB_AT(HX, 0); n->subnodes = n == &NL_W ? &subW : &subX; }
PathNode *nb_node_gen(void) { return NL_gen(); }
nb_u64 nb_pos(const PathNode *p) { return NB_POS(NL, p); } nb_u64 nb_NL(void) { return NL_L; } _Bool nb_isW(const PathNode *p) { return p == &NL_W; }
_Bool nb_own(const PathNode *n, const PathHistory *p) { return p == 0 || (nb_pos(n) < NL_L && (nb_pos(n) == NL_w ? inHL(p) : inHX(p))); }
static _Bool isreg(void) { return (X_st.st_mode & 0170000) == 0100000; }
_Bool nb_xbad(void) { if(!X_exists || !isreg() || X_st.st_size != X.size) return 1; for(int i = 0; i < 20; i++) if(X_h[i] != X.hash[i]) return 1; return 0; }
_Bool nb_bad(void) { return NL_w < NL_L && HL_w < HL_L && HL_W.state.type == PST_regular_file && X.size > 20 && nb_xbad(); }
/* ---- environment ---- */
static int live; struct CR_Region { int x; } res, dis;
CR_Region *CR_RegionNew(void) { OBL(!live, "one disposable region"); live = 1; return &dis; }
void CR_RegionRelease(CR_Region *r) { OBL(r == &dis && live, "region released once"); live = 0; }
void *CR_RegionAllocGrowable(CR_Region *r, size_t n) { OBL(r == &dis && live, "live region"); return buf; }
Allocator *allocatorWrapRegion(CR_Region *r) { OBL(r == &dis && live, "live region"); return &al; }
Allocator *allocatorWrapOneSingleGrowableBuffer(CR_Region *r) { OBL(r == &dis && live, "live region"); return &alg; }
void *CR_RegionAlloc(CR_Region *r, size_t n)
{
  OBL(r == &res && n == sizeof(ListOfBrokenPathNodes), "result outlives the check"); OBL(G.pass == 2, "reported by the check itself");
  if(G.cur) OBL(nb_xbad(), "only damaged paths are reported");
  if(G.own) { OBL(!G.rep, "reported once"); G.rep = 1; G.whead = G.head; G.head = 1; return &nb_cW; }
  G.xrep = 1; G.xprev = G.head; G.head = 2; return &nb_cX;
}
void repoBuildRegularFilePath(char **b, const RegularFileInfo *f)
{
  const PathHistory *h = (const PathHistory *)((const char *)f - (unsigned long)&((PathHistory *)0)->state.metadata.file_info);
  OBL(inHL(h) || inHX(h), "state of the node"); OBL(h->state.type == PST_regular_file && f->size > 20, "only stored files are checked"); *b = buf; G.cur = f->permission_bits & 1; G.own = inHL(h);
}
StringView str(const char *s) { StringView v; SV_SET(v, s, 5, 1); return v; }
StringView strCopy(StringView v, Allocator *a) { OBL(v.content == buf && a == &al, "the key is copied"); StringView r; SV_SET(r, &kc[G.cur], 5, 1); return r; }
StringTable *strTableNew(CR_Region *r) { OBL(r == &dis && live && G.pass < 2, "table"); G.pass++; G.val = 0; return &tabs[G.pass]; }
void *strTableGet(const StringTable *t, StringView k) { OBL(t == &tabs[G.pass] && (k.content == buf || k.content == &kc[G.cur]), "lookup"); return G.cur ? (void *)G.val : (void *)nd_le(G.pass); }
void strTableMap(StringTable *t, StringView k, void *d) { OBL(t == &tabs[G.pass] && k.content == &kc[G.cur] && d != 0, "mapping"); if(G.cur) G.val = (nb_u64)d; }
StringView strAppendPath(StringView a, StringView b, Allocator *x) { OBL(a.content == X_repo.content && a.length == X_repo.length && (b.content == buf || b.content == &kc[G.cur]), "path of the stored file"); OBL(x == &alg, "allocator"); StringView r; SV_SET(r, &full[G.cur], 9, 1); return r; }
static void isfull(StringView p) { OBL(p.content == &full[G.cur] && G.pass == 2, "the stored file is examined"); }
bool sPathExists(StringView p) { isfull(p); MAYDIE; return G.cur ? X_exists : nd_bool(); }
struct stat sLStat(StringView p) { isfull(p); if(G.cur) OBL(X_exists, "existing file"); MAYDIE; struct stat s; s.st_mode = nd_u32(); s.st_size = nd_u64(); if(G.cur) s = X_st; return s; }
void fileHash(StringView p, const struct stat s, uint8_t *h, HashProgressCallback cb, void *u)
{
  isfull(p); if(G.cur) { OBL(X_exists && isreg() && s.st_size == X_st.st_size && s.st_ino == X_st.st_ino, "the existing file is hashed"); } MAYDIE; if(nd_bool() && cb) cb(nd_u64(), u); for(int i = 0; i < 20; i++) h[i] = G.cur ? X_h[i] : nd_u8();
}
uint64_t sUint64Add(uint64_t a, uint64_t b) { if(a + b < a) { nb_may_die = 1; die(""); } return a + b; }
static int token; static nb_u64 total; static void progress(uint64_t n, uint64_t t, void *u) { OBL(u == &token, "user data of the callback"); }
static void NBC_checkIntegrityRecursively(IntegrityCheckContext *c, const PathNode *l, CheckFileCallback cb)
{
  OBL(l == &subW || l == &subX, "subnodes"); if(l == &subW) G.rec = 1; MAYDIE;
  if(G.val == 0 && nd_bool()) G.val = G.pass == 2 && nb_xbad() ? 2 : 1;
  if(G.pass == 2 && nd_bool()) { G.xrep = 1; G.xprev = G.head; nb_cX.next = nb_cell(G.head); G.head = 2; c->broken_nodes = &nb_cX; }
}
void p_check(void)
{
  X.size = nd_u64(); X.slot = nd_u8(); for(int i = 0; i < 20; i++) { X.hash[i] = nd_u8(); X_h[i] = nd_u8(); } X_exists = nd_bool(); X_st.st_mode = nd_u32(); X_st.st_size = nd_u64(); X_st.st_ino = nd_u64(); SV_SET(X_repo, rp, 3, 1);
  HL_init(nd_le(1ul << 40)); HX_init(nd_le(1ul << 40)); static Metadata MD; MD.paths = NB_NEW(NL); nb_W = NL_w; nb_HW = HL_w; if(HL_L) ASSUME(HL_W.state.metadata.file_info.permission_bits & 1);
  G.rep = G.rec = G.cur = G.own = G.xrep = 0; G.head = G.whead = G.xprev = 0; G.val = G.pass = 0; live = 0;
  ListOfBrokenPathNodes *r = checkIntegrity(&res, &MD, X_repo, nd_bool() ? progress : 0, &token);
  OBL(!live, "memory is released"); OBL(r == nb_cell(G.head), "all reported paths are in the result"); if(G.rep) OBL(nb_cW.next == nb_cell(G.whead) && nb_cW.node == &NL_W, "the damaged path is in the result"); if(G.xrep) OBL(nb_cX.next == nb_cell(G.xprev), "other reported paths stay in the result");
  if(nb_bad()) { OBL(G.rep, "every damaged path is reported"); COVER("damaged"); if(NL_w > 4 && HL_w > 4) COVER("late"); } else if(!G.rep) COVER("healthy"); if(NL_L) OBL(G.rec, "subnodes are visited");
}
