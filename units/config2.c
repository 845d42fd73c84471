/*NB-UNIT
{ "src": "search-tree.c", "props": ["C14"],
  "targets": ["searchTreeParse"],
  "entries": ["p_node","p_inherit"],
  "mode": "P", "confirm": ["w_config/n_parse"],
  "needs": {"p_node": ["newNode"], "p_inherit": ["inheritPolicyToSubnodes"]},
  "rename_by_entry": {"p_node": ["newNode@newNode"], "p_inherit": ["inheritPolicyToSubnodes@inheritPolicyToSubnodes"]},
  "unwind": 13, "timeout": 250, "sat": "cadical",
  "state": ["ln","pl","e","prev","cl","hit"],
  "lv": [["nW.policy","BackupPolicy"],["nW.policy_inherited","_Bool"],["nW.policy_line_nr","size_t"]],
  "gen": {"SearchNode *": "nb_node_gen()"},
  "cands": ["nb_pos($p(SearchNode *)) != 0xfffffffffffffffful", "nb_Wp >= nb_pos($p(SearchNode *)) || nb_wdone()", "nb_Wp < nb_pos($p(SearchNode *)) || nb_worig()"],
  "assumes": ["string functions as in C17, the table of paths as in C16, regular expressions as compiled by regcomp()"]
}
*/
//@PRE
struct nb_G { nb_u64 ln, pl, e; nb_u32 prev, cl, hit; };
//@MID
extern struct nb_G G; extern nb_u64 nb_Wp; extern SearchNode nW; nb_u64 nb_pos(const SearchNode *); _Bool nb_wdone(void), nb_worig(void); SearchNode *nb_node_gen(void);
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_Wp; SearchNode nW; static nb_u64 nb_n;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
struct CR_Region { int x; }; static struct CR_Region reg; struct Allocator { int x; }; static struct Allocator al0; struct StringTable { int x; }; static struct StringTable tab; static char base[2]; static SearchNode root, PV, sub0, S; static RegexList *ig; static int nroot; static _Bool mapped; static regex_t rx; static char a_copy[4];
static _Bool teq(const char *a, const char *b) { for(int i = 0; i < 12; i++) { if(a[i] != b[i]) return 0; if(!a[i]) return 1; } return 0; }
static void node_(SearchNode *n) { n->policy = nd_le(3); n->policy_inherited = nd_bool(); ASSUME(n->policy != BPOL_none || !n->policy_inherited); n->policy_line_nr = nd_u64(); n->subnodes = nd_bool() ? &sub0 : 0; n->subnodes_contain_regex = nd_bool(); n->line_nr = nd_u64(); n->ignore_expressions = &ig; }
StringView str(const char *c) { nb_u64 n = 0; while(n < 12 && c[n]) n++; StringView v; SV_SET(v, c, n, 1); return v; }
void strSet(StringView *d, StringView v) { SV_CPY(*d, v); }
StringView strUnterminated(const char *s, size_t n) { StringView v; SV_SET(v, s, n, 0); return v; }
static SearchNode *NBC_newNode(CR_Region *r, Allocator *a, StringTable *t, StringView p, const size_t ln) { OBL(r == &reg && a == &al0 && t == &tab && p.content == base && p.length == G.pl && ln == G.ln && G.prev == 0 && G.hit == 0, "missing parent"); MAYDIE; G.hit = 1; return &PV; }
static void NBC_inheritPolicyToSubnodes(SearchNode *n) { nb_u64 p = nb_pos(n); OBL(n && p != ~0ul, "subnodes"); OBL(n->policy == root.policy && n->policy_inherited && n->policy_line_nr == root.policy_line_nr, "inherited policy is passed on"); if(n == &nW) { OBL(!G.hit, "once"); G.hit = 1; } COVER("inherit"); }
void *strTableGet(const StringTable *t, StringView k) { OBL(t == &tab && k.content == base && k.length == G.pl, "parent path"); return G.prev ? &PV : 0; }
void strTableMap(StringTable *t, StringView k, void *d) { OBL(t == &tab && !mapped, "entry of a path"); OBL(k.content == base && k.length == G.e && d == &S, "entry of the path"); mapped = 1; }
static StringView X_tail;
PathSplit strSplitPath(StringView p) { OBL(p.content == base && p.length == G.e, "the path"); PathSplit s; SV_SET(s.head, base, G.pl, 0); SV_CPY(s.tail, X_tail); return s; }
StringView strCopy(StringView v, Allocator *a) { OBL(a == &al0, "memory of the tree"); MAYDIE; StringView r; SV_SET(r, a_copy, v.length, 1); _Bool e = X_tail.length >= 2 && X_tail.content[0] == '/'; OBL(v.content == X_tail.content + e && v.length == X_tail.length - e, "name without the extra slash"); return r; }
const regex_t *sRegexCompile(CR_Region *r, StringView e, StringView f, size_t ln) { OBL(r == &reg && e.content == a_copy && teq(f.content, "config") && ln == G.ln, "expression of this line"); OBL(e.length == X_tail.length - 1 && X_tail.content[0] == '/', "expression after an extra slash"); G.cl++; MAYDIE; return &rx; }
void *allocate(Allocator *a, size_t n) { OBL(a == &al0 && n == sizeof(SearchNode) && nroot == 0, "one entry"); MAYDIE; nroot = 1; return &S; }
/* ---- one new entry ---- */
void p_node(void)
{
  static char t[3]; nroot = 0; mapped = 0; G.hit = 0; G.cl = 0; G.prev = nd_bool(); G.ln = nd_u64(); nb_n = 1ul << 40; G.e = nd_u64(); G.pl = nd_u64(); ASSUME(G.e <= nb_n && G.pl < G.e); node_(&PV); SearchNode o = PV; t[0] = nd_u8(); t[1] = nd_u8(); SV_SET(X_tail, t, 1 + nd_le(1ul << 40), 0); StringView p; SV_SET(p, base, G.e, 0); SearchNode *n = 0;
#ifdef NB_HAVE_newNode
  n = newNode(&reg, &al0, &tab, p, G.ln);
#endif
  _Bool e = X_tail.length >= 2 && t[0] == '/';
  OBL(n == &S && mapped && G.hit == !G.prev, "entry of the path"); OBL(S.name.content == a_copy && S.name.length == X_tail.length - e && (S.regex == &rx) == e && (S.regex == 0) == !e && G.cl == e, "name or expression"); OBL(S.line_nr == G.ln && S.search_match == SRT_none && S.subnodes == 0 && !S.subnodes_contain_regex && S.ignore_expressions == PV.ignore_expressions, "fresh entry");
  OBL(S.policy == PV.policy && S.policy_inherited == (PV.policy != BPOL_none), "policy of the parent"); OBL(PV.subnodes == &S && S.next == o.subnodes, "below its parent"); OBL(PV.subnodes_contain_regex == (o.subnodes_contain_regex || e), "expressions are marked"); OBL(PV.policy == o.policy && PV.policy_inherited == o.policy_inherited && PV.policy_line_nr == o.policy_line_nr, "parent is kept"); if(e) COVER("expression"); else COVER("name"); if(G.prev) COVER("known parent"); else COVER("new parent");
}
/* ---- inheritance ---- */
static SearchNode nF, nS, nP, nQ, nT, nX; static nb_u64 L, Pp; static SearchNode W0;
static SearchNode *at(nb_u64 p) { if(p >= L) return 0; if(p == nb_Wp) return &nW; if(p == 0) return &nF; if(p == 1) return &nS; if(p == Pp) return &nP; if(p == 2) return &nT; if(p == Pp + 1) return &nQ; if(p == nb_Wp + 1) return &nX; return &sub0; }
nb_u64 nb_pos(const SearchNode *x) { if(!x) return L; if(x == &nW) return nb_Wp; if(x == &nF) return 0; if(x == &nS) return 1; if(x == &nP) return Pp; if(x == &nT) return 2; if(x == &nQ) return Pp + 1; if(x == &nX) return nb_Wp + 1; return ~0ul; }
static void link_(void) { nF.next = at(1); nS.next = at(2); nW.next = at(nb_Wp + 1); nP.next = at(Pp + 1); nQ.next = at(Pp + 2); nT.next = at(3); nX.next = at(nb_Wp + 2); }
SearchNode *nb_node_gen(void) { if(nd_bool()) return 0; nb_u64 p = nd_u64(); ASSUME(p < L); Pp = p; link_(); return at(p); }
static _Bool affected(void) { return W0.policy == BPOL_none || W0.policy_inherited; }
_Bool nb_worig(void) { return nW.policy == W0.policy && nW.policy_inherited == W0.policy_inherited && nW.policy_line_nr == W0.policy_line_nr && nW.subnodes == W0.subnodes && !G.hit; }
_Bool nb_wdone(void) { return affected() ? nW.policy == root.policy && nW.policy_inherited && nW.policy_line_nr == root.policy_line_nr && nW.subnodes == W0.subnodes && G.hit : nb_worig(); }
void p_inherit(void)
{
  G.hit = 0; L = nd_u64(); ASSUME(L <= 1ul << 40); nb_Wp = nd_u64(); ASSUME(nb_Wp < 1ul << 41); Pp = 1ul << 42; node_(&nF); node_(&nS); node_(&nW); node_(&nP); node_(&nQ); node_(&nT); node_(&nX); link_(); node_(&root); ASSUME(root.policy != BPOL_none); root.subnodes = at(0); W0 = nW; SearchNode o = root;
#ifdef NB_HAVE_inheritPolicyToSubnodes
  inheritPolicyToSubnodes(&root);
#endif
  if(nb_Wp < L) { OBL(nb_wdone(), "the policy is inherited exactly by entries without their own"); if(affected()) COVER("affected"); else COVER("own policy"); } else OBL(nb_worig(), "other entries are kept"); OBL(root.policy == o.policy && root.policy_line_nr == o.policy_line_nr && root.policy_inherited == o.policy_inherited, "entry is kept"); COVER("done");
}
