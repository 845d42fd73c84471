/*NB-UNIT
{ "src": "garbage-collector.c", "props": ["C12"],
  "targets": ["collectGarbageProgress"],
  "entries": ["p_populate","p_collect"],
  "mode": "P", "confirm": ["w_gc/n_gc"],
  "needs": {"p_populate": ["populateTableRecursively"], "p_collect": ["populateTableRecursively"]},
  "rename_by_entry": {"p_populate": ["*@populateTableRecursively"], "p_collect": ["*@populateTableRecursively"]},
  "unwind": 12, "timeout": 200, "sat": "cadical",
  "state": ["mapped","rec","cur","open","cnt","sz","dirs","n"],
  "gen": {"PathHistory *": "nb_hist_gen()", "PathNode *": "nb_node_gen()"},
  "genset": {"StringView": "*(struct nb_sv *)&$x = nb_G_sub();", "GCContext": "$x.statistics.deleted_items_count = nd_u64(); $x.statistics.deleted_items_total_size = nd_u64();"},
  "cands": ["nb_own($p(PathNode *), $p(PathHistory *))", "G.mapped || nb_W >= nb_pos($p(PathNode *)) || !nb_want()", "G.mapped || nb_W != nb_pos($p(PathNode *)) || nb_HW >= nb_hpos($p(PathHistory *)) || !nb_want()",
            "G.rec || nb_W >= nb_pos($p(PathNode *)) || !nb_okhint()", "$p(GCContext).statistics.deleted_items_count == G.cnt", "$p(GCContext).statistics.deleted_items_total_size == G.sz", "nb_issub(&$p(StringView))", "nb_pos($p(PathNode *)) <= nb_NL()"],
  "assumes": ["the string table behaves like a map (C16)", "sRemoveRecursivelyIf() calls its callback as specified for C22", "repoBuildRegularFilePath() is injective (C05)"]
}
*/
//@PRE
struct nb_G { _Bool mapped, rec, cur, open, dirs; nb_u64 cnt, sz, n; };
struct nb_sv; struct nb_sv nb_G_sub(void);
//@MID
extern struct nb_G G; extern nb_u64 nb_W, nb_HW; PathHistory *nb_hist_gen(void); PathNode *nb_node_gen(void); nb_u64 nb_hpos(const PathHistory *), nb_pos(const PathNode *), nb_NL(void); _Bool nb_own(const PathNode *, const PathHistory *), nb_want(void), nb_okhint(void), nb_issub(const StringView *);
struct nb_sv { const char *c; nb_u64 l; _Bool t; };
//@POST
static int X_mode; static _Bool X_any;
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
#define SV_SET(v, C, L, T) (*(struct nb_sv *)&(v) = (struct nb_sv){ (C), (L), (T) })
#define SV_CPY(v, w) (*(struct nb_sv *)&(v) = *(struct nb_sv *)&(w))
//@include alloc.h
struct nb_G G; nb_u64 nb_W, nb_HW;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static nb_u64 X_size; static char buf[1], kc[2], sub[1], repo[1], *ent; struct StringTable { int x; } tab; static _Bool w_table; static PathNode subW, subX;
//@include list.h
static void fill_h(PathHistory *p, nb_u64 pos) { p->state.type = nd_le(3); p->state.metadata.file_info.size = nd_u64(); p->state.metadata.file_info.permission_bits = nd_u32(); if(p->state.metadata.file_info.permission_bits & 1) p->state.metadata.file_info.size = X_size; }
NB_LIST(PathHistory, HL, next, fill_h)
NB_LIST(PathHistory, HX, next, fill_h)
PathHistory *nb_hist_gen(void) { if(nd_bool()) return HL_gen(); return HX_gen(); }
static _Bool inHL(const PathHistory *p) { return p == &HL_W || p == &HL_F || p == &HL_S || p == &HL_O0 || p == &HL_O1 || p == &HL_O2; }
static _Bool inHX(const PathHistory *p) { return p == &HX_W || p == &HX_F || p == &HX_S || p == &HX_O0 || p == &HX_O1 || p == &HX_O2; }
nb_u64 nb_hpos(const PathHistory *p) { return inHL(p) ? NB_POS(HL, p) : ~0ul; }
static PathNode *nwatch;
static void fill_n(PathNode *n, nb_u64 pos);
NB_LIST(PathNode, NL, next, fill_n)
static void fill_n(PathNode *n, nb_u64 pos) { n->hint = nd_u32(); n->policy = nd_le(3); n->history = n == &NL_W ? NB_AT(HL, 0) : NB_AT(HX, 0); n->subnodes = n == &NL_W ? &subW : &subX; }
PathNode *nb_node_gen(void) { return NL_gen(); }
nb_u64 nb_pos(const PathNode *p) { return NB_POS(NL, p); } nb_u64 nb_NL(void) { return NL_L; }
_Bool nb_own(const PathNode *n, const PathHistory *p) { return p == 0 || (nb_pos(n) < NL_L && (nb_pos(n) == NL_w ? inHL(p) : inHX(p))); }
_Bool nb_okhint(void) { return NL_w < NL_L && (NL_W.hint & 0x1FF) != BH_not_part_of_repository; }
_Bool nb_want(void) { return nb_okhint() && HL_w < HL_L && HL_W.state.type == PST_regular_file && HL_W.state.metadata.file_info.size > 20; }
/* ---- referenced files are collected ---- */
void repoBuildRegularFilePath(char **b, const RegularFileInfo *f)
{
  const PathHistory *h = (const PathHistory *)((const char *)f - (unsigned long)&((PathHistory *)0)->state.metadata.file_info);
  OBL(inHL(h) || inHX(h), "state of the node"); OBL(h->state.type == PST_regular_file && f->size > 20, "only stored files are kept"); if(inHL(h)) OBL(nb_okhint(), "wiped paths are not kept");
  *b = buf; G.cur = f->permission_bits & 1;
}
StringView str(const char *s) { StringView v; SV_SET(v, s, 1, 1); return v; }
StringView strCopy(StringView v, Allocator *a) { OBL(v.content == buf, "path of the file"); StringView r; SV_SET(r, &kc[G.cur], 1, 1); return r; }
StringView strUnterminated(const char *s, size_t n) { StringView v; SV_SET(v, s, n, 0); return v; }
bool strIsEmpty(StringView v) { return v.length == 0; }
void strSet(StringView *a, StringView b) { SV_CPY(*a, b); }
static unsigned X_k; static _Bool w_lit[3], w_pop; static nb_u64 X_rl, X_el;
static unsigned lit(const char *s) { if(s[0] == 'c' && s[1] == 'o' && s[2] == 'n' && s[3] == 'f' && s[4] == 'i' && s[5] == 'g' && s[6] == 0) return 0; if(s[0] == 'm' && s[1] == 'e' && s[2] == 't' && s[3] == 'a' && s[4] == 'd' && s[5] == 'a' && s[6] == 't' && s[7] == 'a' && s[8] == 0) return 1;
  if(s[0] == 'l' && s[1] == 'o' && s[2] == 'c' && s[3] == 'k' && s[4] == 'f' && s[5] == 'i' && s[6] == 'l' && s[7] == 'e' && s[8] == 0) return 2; return 3; }
StringTable *strTableNew(CR_Region *r) { OBL(!w_table && r && !r->released, "one table"); w_table = 1; return &tab; }
void *strTableGet(const StringTable *t, StringView k)
{
  OBL(t == &tab, "table");
  if(X_mode == 0) { OBL(k.content == buf || k.content == &kc[0] || k.content == &kc[1], "key"); _Bool is = k.content == buf ? G.cur : k.content == &kc[1]; return is ? (G.mapped ? (void *)1 : 0) : nd_bool() ? (void *)1 : 0; }
  OBL(k.content == ent + X_rl + 1 && k.length == X_el, "path relative to the repository"); OBL(w_pop, "the table is complete before it is used"); _Bool r = X_k < 3 ? w_lit[X_k] : X_k == 3; return r ? (void *)1 : 0;
}
void strTableMap(StringTable *t, StringView k, void *d)
{
  OBL(t == &tab && d != 0, "mapping");
  if(X_mode == 0) { OBL(k.content == &kc[0] || k.content == &kc[1], "the key is a copy"); if(k.content == &kc[1]) G.mapped = 1; return; }
  unsigned l = lit(k.content); OBL(l < 3, "only repository files are kept"); if(l < 3) w_lit[l] = 1;
}
size_t strTableCountMappings(const StringTable *t) { return nd_u64(); }
static Metadata MD; 
static void NBC_populateTableRecursively(Allocator *a, StringTable *t, const PathNode *l)
{
  OBL(t == &tab, "table"); if(X_mode == 0) { OBL(l == &subW || l == &subX, "subnodes"); if(l == &subW) { OBL(nb_okhint(), "wiped paths are not kept"); G.rec = 1; } if(nd_bool()) G.mapped = 1; return; }
  OBL(l == MD.paths, "all paths"); w_pop = 1;
}
void p_populate(void)
{
  X_mode = 0; X_size = nd_u64(); HL_init(nd_le(1ul << 40)); HX_init(nd_le(1ul << 40)); PathNode *l = NB_NEW(NL); nb_W = NL_w; nb_HW = HL_w; if(HL_L) ASSUME(HL_W.state.metadata.file_info.permission_bits & 1); G.mapped = G.rec = 0; static Allocator a;
#ifdef NB_HAVE_populateTableRecursively
  populateTableRecursively(&a, &tab, l);
#endif
  if(nb_want()) { OBL(G.mapped, "every referenced file is kept"); COVER("referenced"); if(NL_w > 4 && HL_w > 4) COVER("late"); } if(nb_okhint()) { OBL(G.rec, "subnodes are visited"); COVER("subnodes"); } else COVER("wiped");
}
/* ---- everything else is deleted ---- */
static StringView X_repo; StringView strStripTrailingSlashes(StringView v) { StringView r; OBL(v.content == repo && v.length >= X_rl, "repository path"); SV_SET(r, repo, X_rl, v.length == X_rl); return r; }
static struct DirIterator { int x; } dd; static int token;
struct nb_sv nb_G_sub(void) { struct nb_sv v; v.c = sub; v.l = nd_bool() ? 5 : 0; v.t = 1; return v; }
_Bool nb_issub(const StringView *v) { return v->content == sub && (v->length == 5) == !G.dirs && G.n == (v->length == 5) && (v->length == 5 || v->length == 0); }
DirIterator *sDirOpen(StringView p) { OBL(p.content == X_repo.content && p.length >= X_rl && p.length <= X_repo.length && !G.open, "the repository is searched"); MAYDIE; G.open = 1; G.dirs = 0; return &dd; }
StringView sDirGetNext(DirIterator *d) { OBL(d == &dd && G.open && !G.dirs, "open directory"); MAYDIE; StringView v; if(nd_bool()) { SV_SET(v, sub, 5, 1); G.n++; } else { SV_SET(v, sub, 0, 1); G.dirs = 1; } return v; }
void sDirClose(DirIterator *d) { OBL(d == &dd && G.open, "open directory"); G.open = 0; }
size_t sSizeAdd(size_t a, size_t b) { if(a + b < a) { nb_may_die = 1; die(""); } return a + b; }
uint64_t sUint64Add(uint64_t a, uint64_t b) { if(a + b < a) { nb_may_die = 1; die(""); } return a + b; }
static void progress(uint64_t d, size_t m, void *u) { OBL(u == &token, "user data of the callback"); OBL(X_k < 4, "called for kept files"); }
static void visit(ShouldRemoveCallback *f, void *u)
{
  X_k = nd_le(4); X_el = X_k == 0 ? 6 : X_k < 3 ? 8 : nd_range(1, 1ul << 40); StringView p; SV_SET(p, ent, X_rl + 1 + X_el, 1); struct stat s; s.st_mode = nd_u32(); s.st_size = nd_le(1ul << 62);
  if(X_k == 4) { G.cnt++; nb_u64 z = (s.st_mode & 0170000) == 0100000 ? s.st_size : 0; if(G.cnt == 0 || G.sz + z < G.sz) nb_may_die = 1; G.sz += z; }
  _Bool r = f(p, &s, u); OBL(r == (X_k == 4), "exactly the unreferenced entries are deleted"); if(r) COVER("deleted"); else COVER("kept"); nb_may_die = 0;
}
void sRemoveRecursivelyIf(StringView p, ShouldRemoveCallback f, void *u)
{
  OBL(p.content == sub && p.length == 5 && G.n > 0, "entry of the repository"); G.n--; if(nd_bool()) visit(f, u); if(nd_bool()) visit(f, u); MAYDIE;
}
void p_collect(void)
{
  X_mode = 1; X_rl = nd_le(1ul << 40); SV_SET(X_repo, repo, X_rl + nd_le(100), 1); /* followed by any number of slashes */ { nb_u64 n = nd_u64(); ASSUME(n > (1ul << 41) + 8 && n < (1ul << 45)); ent = malloc(n); } ASSUME(ent != 0); MD.paths = nd_bool() ? &subW : 0; G.open = G.dirs = 0; G.n = G.cnt = G.sz = 0; w_lit[0] = w_lit[1] = w_lit[2] = w_pop = w_table = 0;
  GCStatistics s;
  if(nd_bool()) s = collectGarbageProgress(&MD, X_repo, nd_bool() ? progress : 0, &token); else s = collectGarbage(&MD, X_repo);
  OBL(!G.open && G.dirs && G.n == 0, "every entry of the repository was examined"); OBL(s.deleted_items_count == G.cnt && s.deleted_items_total_size == G.sz, "statistics"); COVER("done"); if(G.cnt > 3) COVER("many");
}
