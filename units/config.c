/*NB-UNIT
{ "src": "search-tree.c", "props": ["C14"],
  "targets": ["searchTreeParse","searchTreeLoad"],
  "entries": ["p_parse","p_load","p_line"],
  "mode": "P", "confirm": ["w_config/n_parse"],
  "needs": {"p_parse": ["newNode","inheritPolicyToSubnodes","getLine"], "p_line": ["getLine"]},
  "rename_by_entry": {"p_parse": ["*@newNode","*@inheritPolicyToSubnodes","*@getLine"], "p_load": ["*@searchTreeParse"]},
  "unwind": 13, "timeout": 250, "sat": "cadical", "ints": ["BackupPolicy"],
  "state": ["s","e","ln","pl","kind","hdr","dot","st","pol","prev","own","ih","sh","al","cl"],
  "lv": [["nb_ig","RegexList *"],["nb_su","RegexList *"],["nb_Ea","RegexList"],["nb_Eb","RegexList"]],
  "gen": {"RegexList *": "nb_rgen()"},
  "genset": {"RegexList": "__CPROVER_havoc_object(&$x);"},
  "cands": ["$u <= nb_n", "$u >= G.s", "nb_W < G.s || nb_W >= $u || nb_byte(nb_W) != 10", "G.s <= nb_n && $u <= nb_n - G.s", "nb_W < G.s || nb_W >= G.s + $u || nb_byte(nb_W) != 10", "$u == nb_posn()", "$u == nb_ln()", "$p(BackupPolicy) == nb_pol()", "nb_ready()", "nb_ig == nb_ihp()", "nb_su == nb_shp()", "nb_sane()"],
  "assumes": ["string functions as in C17, the table of paths as in C16, regular expressions as compiled by regcomp()"]
}
*/
//@PRE
struct nb_G { nb_u64 s, e, ln, pl; nb_u32 kind, dot, st, pol, prev, own, ih, sh, al, cl; int hdr; };
//@MID
extern struct nb_G G; extern nb_u64 nb_n, nb_W; extern RegexList *nb_ig, *nb_su, nb_Ea, nb_Eb;
nb_u64 nb_posn(void), nb_ln(void); unsigned nb_pol(void); nb_u8 nb_byte(nb_u64); _Bool nb_ready(void), nb_sane(void); RegexList *nb_ihp(void), *nb_shp(void), *nb_rgen(void);
//@POST
static _Bool dieexp(void);
#define NB_ON_DIE OBL(nb_may_die || dieexp(), "error exit only for invalid configurations")
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_n, nb_W; RegexList *nb_ig, *nb_su, nb_Ea, nb_Eb;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
struct CR_Region { int x; }; static struct CR_Region reg, r_tmp; struct Allocator { int x; }; static struct Allocator al0; struct StringTable { int x; }; static struct StringTable tab;
static char *base; static _Bool X_null, X_bom; static SearchNode root, PV, NN_, sub0; static int nroot, nlists, nreg; static _Bool mapped; static regex_t rx;
static char a_copy[4]; 
static _Bool teq(const char *a, const char *b) { for(int i = 0; i < 12; i++) { if(a[i] != b[i]) return 0; if(!a[i]) return 1; } return 0; }
static const char *const hd[] = { "[copy]", "[mirror]", "[track]", "[ignore]", "[summarize]" }; static const unsigned hp[] = { BPOL_copy, BPOL_mirror, BPOL_track, BPOL_ignore, BPOL_summarize };
nb_u8 nb_byte(nb_u64 i) { return i < nb_n ? base[i] : 0; }
/* ---- the line which is handled, G.st: 0 none, 1 seen, 2 path stored ---- */
enum { K_SKIP, K_HEAD, K_BADPOL, K_NOPOL, K_EXPR, K_PATH, K_BAD };
nb_u64 nb_posn(void) { return G.st == 0 ? X_bom ? 3 : 0 : G.e + (G.e < nb_n); }
nb_u64 nb_ln(void) { return G.st == 0 ? 1 : G.ln + 1; }
unsigned nb_pol(void) { return G.st && G.kind == K_HEAD && G.hdr >= 0 && G.hdr <= 4 ? hp[G.hdr] : G.pol; }
static RegexList *el(unsigned k) { return k == 0 ? 0 : k == 1 ? &nb_Ea : &nb_Eb; }
static unsigned ih_(void) { return G.st && G.kind == K_EXPR && G.pol == BPOL_ignore ? G.al : G.ih; } static unsigned sh_(void) { return G.st && G.kind == K_EXPR && G.pol == BPOL_summarize ? G.al : G.sh; }
RegexList *nb_ihp(void) { return el(ih_()); } RegexList *nb_shp(void) { return el(sh_()); } RegexList *nb_rgen(void) { return el(nd_le(2)); }
static _Bool dieexp(void) { if(X_null) return 1; if(!G.st) return 0; return G.kind == K_BADPOL || G.kind == K_NOPOL || G.kind == K_BAD || (G.kind == K_PATH && (G.dot || (G.prev && G.own))); }
_Bool nb_sane(void) { return G.hdr >= -1 && G.hdr <= 4 && G.kind <= K_BAD && G.st <= 2 && G.ih <= 2 && G.sh <= 2 && G.al <= 2 && G.e <= nb_n && G.s <= G.e && (G.kind != K_HEAD || G.hdr >= 0) && (!G.st || G.e < nb_n || G.e == nb_n); }
_Bool nb_ready(void)
{
  if(!mapped || dieexp()) return 0; if(!G.st || G.kind == K_SKIP || G.kind == K_HEAD) return 1; if(G.kind == K_PATH) return G.st == 2;
  if(G.kind != K_EXPR || G.al == 0 || G.cl != 1) return 0; RegexList *x = el(G.al); return x->next == el(G.pol == BPOL_ignore ? G.ih : G.sh) && x->expression.content == a_copy && x->expression.length == G.e - G.s && x->line_nr == G.ln && x->regex == &rx && !x->has_matched;
}
static void node_(SearchNode *n) { n->policy = nd_le(3); n->policy_inherited = nd_bool(); ASSUME(n->policy != BPOL_none || !n->policy_inherited); n->policy_line_nr = nd_u64(); n->subnodes = nd_bool() ? &sub0 : 0; n->subnodes_contain_regex = nd_bool(); n->line_nr = nd_u64(); n->ignore_expressions = &nb_ig; }
static SearchNode *prev(void) { return G.prev == 0 ? 0 : G.prev == 1 ? &PV : &root; }
static void is_line(StringView v) { OBL(G.st && v.content == base + G.s && v.length == G.e - G.s, "the current line"); }
static StringView NBC_getLine(StringView c, const size_t start)
{
  OBL(!X_null, "null-bytes are rejected"); OBL(c.content == base && c.length == nb_n, "lines of the configuration"); StringView v; SV_SET(v, base + start, nd_u64(), 0); ASSUME(start <= nb_n && v.length <= nb_n - start);
  OBL(nb_ready(), "every line is handled completely"); nb_u64 s = nb_posn(), ln = nb_ln(); OBL(v.content == base + s && s < nb_n && v.length <= nb_n - s, "lines are handled in order"); nb_u64 e = s + v.length;
  unsigned pol = nb_pol(), ih = ih_(), sh = sh_(); OBL(nb_ig == el(ih) && nb_su == el(sh), "expressions are kept"); G.pol = pol; G.ih = ih; G.sh = sh; G.s = s; G.e = e; G.ln = ln; G.st = 1; G.al = 0; G.cl = 0; G.pl = ~0ul;
  nb_u8 f = v.length ? base[s] : 0, la = v.length ? base[e - 1] : 0; _Bool blank = v.length == 0 || nd_bool(); if(blank && v.length) ASSUME((f == ' ' || f == '\t') && (la == ' ' || la == '\t')); G.hdr = nd_bool() ? -1 : (int)nd_le(4); if(G.hdr >= 0) ASSUME(!blank && v.length >= 6 && f == '[' && la == ']'); G.dot = nd_bool(); G.prev = nd_le(2);
  node_(&PV); node_(&root); node_(&NN_); if(G.prev) G.own = prev()->policy != BPOL_none && !prev()->policy_inherited; else G.own = 0;
  G.kind = blank || f == '#' ? K_SKIP : G.hdr >= 0 ? K_HEAD : f == '[' && la == ']' ? K_BADPOL : pol == BPOL_none ? K_NOPOL : pol == BPOL_ignore || pol == BPOL_summarize ? K_EXPR : f == '/' ? K_PATH : K_BAD; G.cl = blank ? 2 : 0;
  if(G.kind == K_SKIP) COVER("comment"); if(G.kind == K_HEAD) COVER("header"); if(G.kind == K_EXPR) COVER("expression"); if(G.kind == K_PATH) { if(G.prev) { if(!G.own) COVER("known path"); } else COVER("new path"); } if(e == nb_n) COVER("last line"); return v;
}
static char tok[5];
StringView str(const char *c) { nb_u64 n = 0; while(n < 12 && c[n]) n++; StringView v; int k = -1; for(int i = 0; i < 5; i++) if(teq(c, hd[i])) k = i; SV_SET(v, k == 0 ? &tok[0] : k == 1 ? &tok[1] : k == 2 ? &tok[2] : k == 3 ? &tok[3] : k == 4 ? &tok[4] : c, n, 1); return v; }
void strSet(StringView *d, StringView v) { SV_CPY(*d, v); }
StringView strUnterminated(const char *s, size_t n) { StringView v; SV_SET(v, s, n, 0); return v; }
bool strIsWhitespaceOnly(StringView v) { is_line(v); return G.cl == 2; }
bool strIsEmpty(StringView v) { return v.length == 0; }
static int tk(StringView v) { return v.content == &tok[0] ? 0 : v.content == &tok[1] ? 1 : v.content == &tok[2] ? 2 : v.content == &tok[3] ? 3 : v.content == &tok[4] ? 4 : -1; }
bool strIsEqual(StringView a, StringView b) { int i = tk(a), j = tk(b); OBL((i >= 0) != (j >= 0), "lines are compared with headers"); if(i >= 0) { is_line(b); return G.hdr == i; } is_line(a); return G.hdr == j; }
bool strPathContainsDotElements(StringView v) { is_line(v); OBL(G.kind == K_PATH, "paths only"); return G.dot; }
StringView strStripTrailingSlashes(StringView v) { is_line(v); OBL(G.kind == K_PATH, "paths only"); if(G.pl == ~0ul) { G.pl = nd_u64(); ASSUME(G.pl <= v.length); } StringView r; SV_SET(r, v.content, G.pl, 0); return r; }
static void is_path(StringView p) { OBL(G.st == 1 && G.kind == K_PATH && !G.dot && G.pl != ~0ul && p.content == base + G.s && p.length == G.pl, "path of the line without trailing slashes"); }
static SearchNode *NBC_newNode(CR_Region *r, Allocator *a, StringTable *t, StringView p, const size_t ln)
{
  is_path(p); OBL(r == &reg && a == &al0 && t == &tab && ln == G.ln && G.prev == 0, "new path of this line"); MAYDIE; return &NN_;
}
static void NBC_inheritPolicyToSubnodes(SearchNode *n)
{
  OBL(G.st == 1 && G.kind == K_PATH && !dieexp() && n == (G.prev ? prev() : &NN_), "entry of the path"); OBL(n->policy == G.pol && !n->policy_inherited && n->policy_line_nr == G.ln, "policy of the section"); G.st = 2;
}
void *strTableGet(const StringTable *t, StringView k) { is_path(k); OBL(t == &tab, "table of paths"); return prev(); }
StringTable *strTableNew(CR_Region *r) { OBL(r == &r_tmp, "temporary table"); MAYDIE; return &tab; }
void strTableMap(StringTable *t, StringView k, void *d) { OBL(t == &tab && !mapped, "entry of a path"); OBL(k.length == 0 && d == &root, "root directory"); mapped = 1; }
StringView strCopy(StringView v, Allocator *a)
{
  OBL(a == &al0, "memory of the tree"); StringView r; SV_SET(r, a_copy, v.length, 1);
  is_line(v); OBL(G.kind == K_EXPR && v.length == G.e - G.s, "expression"); return r;
}
const regex_t *sRegexCompile(CR_Region *r, StringView e, StringView f, size_t ln) { OBL(r == &reg && e.content == a_copy && teq(f.content, "config") && ln == G.ln, "expression of this line"); OBL(G.st == 1 && G.kind == K_EXPR && e.length == G.e - G.s && G.cl == 0, "expression of this line"); MAYDIE; G.cl = 1; return &rx; }
CR_Region *CR_RegionNew(void) { OBL(nreg == 0, "one region"); nreg = 1; MAYDIE; return &r_tmp; } void CR_RegionRelease(CR_Region *r) { OBL(r == &r_tmp && nreg == 1, "released once"); nreg = 2; } Allocator *allocatorWrapRegion(CR_Region *r) { OBL(r == &reg, "memory of the tree"); return &al0; }
void *allocate(Allocator *a, size_t n)
{
  OBL(a == &al0, "memory of the tree"); MAYDIE; if(n == sizeof(SearchNode)) { OBL(nroot == 0, "one entry"); nroot = 1; return &root; }
  if(n == sizeof(RegexList *)) { OBL(nlists < 2, "two lists"); return nlists++ == 0 ? &nb_ig : &nb_su; } OBL(n == sizeof(RegexList) && G.st == 1 && G.kind == K_EXPR && G.al == 0, "one expression"); unsigned o = G.pol == BPOL_ignore ? G.ih : G.sh, p = G.pol == BPOL_ignore ? G.sh : G.ih; ASSUME(o == 0 || p == 0 || o == p || o != p); G.al = o == 1 ? 2 : 1; return el(G.al);
}
void *memchr(const void *s, int c, size_t n) { OBL(s == base && n == nb_n && c == 0, "whole configuration"); return X_null ? base : 0; }
void p_parse(void)
{
  G.st = 0; G.kind = 0; G.hdr = -1; G.pol = 0; G.ih = G.sh = G.al = G.cl = 0; G.s = G.e = 0; mapped = 0; nroot = nlists = nreg = 0; nb_n = nd_u64(); ASSUME(nb_n <= 1ul << 40); nb_W = nd_u64(); base = malloc(nb_n + 1); ASSUME(base != 0); X_null = nd_bool(); X_bom = nb_n >= 3 && (nb_u8)base[0] == 0xEF && (nb_u8)base[1] == 0xBB && (nb_u8)base[2] == 0xBF; StringView v; SV_SET(v, base, nb_n, 0);
  SearchNode *r = searchTreeParse(&reg, v);
  OBL(r == &root && !X_null && nb_ready() && nb_posn() >= nb_n, "the whole configuration is handled"); OBL(root.next == 0 && root.regex == 0 && root.name.length == 1 && root.name.content[0] == '/' && root.search_match == SRT_none, "root directory"); OBL((root.ignore_expressions == &nb_ig) && root.summarize_expressions == &nb_su && nb_ig == nb_ihp() && nb_su == nb_shp(), "expressions"); OBL(nreg == 2, "temporary memory is released"); COVER("parsed"); if(G.st == 0) COVER("empty");
}
static _Bool loaded, parsed; FileContent sGetFilesContent(CR_Region *r, StringView p) { OBL(r == &r_tmp && p.content == a_copy && !loaded, "configuration file"); MAYDIE; loaded = 1; FileContent c = { .content = base, .size = nb_n }; return c; }
SearchNode *NBC_searchTreeParse(CR_Region *r, StringView c) { OBL(loaded && nreg == 1 && !parsed && r == &reg && c.content == base && c.length == nb_n, "content of the file"); MAYDIE; parsed = 1; return &root; }
void p_load(void)
{
  loaded = parsed = 0; nreg = 0; base = a_copy + 1; nb_n = nd_u64(); StringView p; SV_SET(p, a_copy, 2, 1); SearchNode *r = searchTreeLoad(&reg, p); OBL(r == &root && parsed && nreg == 2, "tree of the configuration file"); COVER("loaded");
}
void p_line(void)
{
  nb_n = nd_u64(); ASSUME(nb_n <= 1ul << 40); nb_W = nd_u64(); base = malloc(nb_n + 1); ASSUME(base != 0); G.s = nd_u64(); ASSUME(G.s < nb_n); StringView c, l; SV_SET(c, base, nb_n, 0); SV_SET(l, base, 0, 0);
#ifdef NB_HAVE_getLine
  StringView x = getLine(c, G.s); SV_CPY(l, x);
#endif
  nb_u64 e = G.s + l.length; OBL(l.content == base + G.s && l.length <= nb_n - G.s, "line begins at its start"); OBL(e == nb_n || base[e] == '\n', "a line ends at a newline"); OBL(nb_W < G.s || nb_W >= e || base[nb_W] != '\n', "lines are split at every newline"); if(e == nb_n) COVER("last line"); else COVER("line"); if(l.length == 0) COVER("empty line");
}
