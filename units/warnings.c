/*NB-UNIT
{ "src": "informations.c", "props": ["C24"],
  "targets": ["printSearchTreeInfos","warnNodeMatches"],
  "entries": ["p_nodes","p_exprs","p_tree","p_match"],
  "mode": "P", "confirm": ["w_warnings/n_warn"],
  "needs": {"p_nodes": ["printSearchNodeInfos"], "p_exprs": ["warnUnmatchedExpressions"], "p_tree": ["printSearchNodeInfos", "warnUnmatchedExpressions"]},
  "rename_by_entry": {"p_nodes": ["printSearchNodeInfos@printSearchNodeInfos"], "p_tree": ["*@printSearchNodeInfos", "*@warnUnmatchedExpressions"]},
  "unwind": 70, "timeout": 250, "sat": "cadical",
  "state": ["hits","rec"], "gen": {"const SearchNode *": "nb_sn_gen()", "SearchNode *": "nb_sn_gen()", "RegexList *": "nb_rx_gen()", "const RegexList *": "nb_rx_gen()"},
  "cands": ["nb_W < nb_pos($p(SearchNode *)) || (G.hits == 0 && G.rec == 0)", "nb_W >= nb_pos($p(SearchNode *)) || nb_ok()",
            "nb_W < nb_rpos($p(RegexList *)) || G.hits == 0", "nb_W >= nb_rpos($p(RegexList *)) || nb_ok()"],
  "assumes": ["names and expressions are shorter than 2^31 bytes", "the marks of the entries are set as covered by C15 (search.c) and C20 (summarize expressions)"]
}
*/
//@PRE
struct nb_G { nb_u32 hits, rec; };
//@MID
extern struct nb_G G; extern nb_u64 nb_W; SearchNode *nb_sn_gen(void); RegexList *nb_rx_gen(void);
nb_u64 nb_pos(const SearchNode *), nb_rpos(const RegexList *); _Bool nb_ok(void);
//@POST
#include <stdarg.h>
#define NB_ON_DIE OBL(0, "no error exit")
//@include die.h
//@include sv.h
//@include list.h
struct nb_G G; nb_u64 nb_W;
static char nm[8], xm[8]; static int nidx, sidx; static regex_t rxd; static SearchNode SUB; static int X_mode;
static void fill_n(SearchNode *n, nb_u64 pos) { SV_SET(n->name, &nm[nidx++ % 8], 1 + nd_le(1ul << 30), nd_bool()); n->line_nr = nd_u64(); n->regex = nd_bool() ? &rxd : 0; n->search_match = nd_le(15); n->subnodes = nd_bool() ? &SUB : 0; }
NB_LIST(SearchNode, SL, next, fill_n)
static void fill_r(RegexList *n, nb_u64 pos) { SV_SET(n->expression, &xm[sidx++ % 8], 1 + nd_le(1ul << 30), nd_bool()); n->line_nr = nd_u64(); n->has_matched = nd_bool(); }
NB_LIST(RegexList, RL, next, fill_r)
SearchNode *nb_sn_gen(void) { nidx = 3; return SL_gen(); } nb_u64 nb_pos(const SearchNode *p) { return NB_POS(SL, p); }
RegexList *nb_rx_gen(void) { sidx = 3; return RL_gen(); } nb_u64 nb_rpos(const RegexList *p) { return NB_POS(RL, p); }
/* ---- the text of the current line; line numbers and names are opaque ---- */
static char T_[110]; static unsigned o_, c_ln, c_nm; static nb_u64 X_ln; static const char *X_nm, *X_nm1; static nb_u64 X_nl, X_nl1;
static void line(void);
static void put(char c) { OBL(o_ < sizeof T_, "length of a line"); T_[o_++] = c; if(c == '\n') { line(); o_ = c_ln = c_nm = 0; } }
static void emit(FILE *s, const char *f, va_list ap)
{
  OBL(s == stderr, "warnings go to the standard error output");
  for(int i = 0; i < 64 && f[i]; i++) {
    if(f[i] != '%') { put(f[i]); continue; }
    i++;
    if(f[i] == 'z' && f[i + 1] == 'u') { i++; X_ln = va_arg(ap, nb_u64); c_ln++; put(1); }
    else if(f[i] == '.' && f[i + 1] == '*' && f[i + 2] == 's') { i += 2; X_nm1 = X_nm; X_nl1 = X_nl; X_nl = (nb_u64)(nb_u32)va_arg(ap, int); X_nm = va_arg(ap, const char *); c_nm++; put(2); }
    else if(f[i] == 's') { const char *t = va_arg(ap, const char *); for(int k = 0; k < 12 && t[k]; k++) put(t[k]); }
    else if(f[i] == 'c') put((char)va_arg(ap, int)); else OBL(0, "format covered by the contract"); }
}
int fprintf(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); emit(s, f, ap); va_end(ap); return 1; }
void colorPrintf(FILE *s, TextColor c, const char *f, ...) { va_list ap; va_start(ap, f); emit(s, f, ap); va_end(ap); }
int fputc(int c, FILE *s) { OBL(s == stderr, "warnings go to the standard error output"); put(c); return c; }
int fputs(const char *t, FILE *s) { OBL(s == stderr, "warnings go to the standard error output"); for(int k = 0; k < 64 && t[k]; k++) put(t[k]); return 1; }
size_t fwrite(const void *p, size_t n, size_t m, FILE *s) { OBL(s == stderr && n * m <= 64, "warnings go to the standard error output"); for(size_t k = 0; k < n * m; k++) put(((const char *)p)[k]); return m; }
/* ---- what is expected ---- */
static const char *X_target; static nb_u64 e_; static StringView X_s;
static void want(const char *t) { for(int i = 0; i < 64 && t[i]; i++) { OBL(e_ < o_ && T_[e_] == t[i], "text of the warning"); e_++; } }
static int kind(const SearchNode *n) { int m = n->search_match; return m == SRT_none ? 1 : !n->subnodes ? 0 : !(m & SRT_directory) ? 2 : m & ~SRT_directory ? 3 : 0; }
static _Bool desc(const SearchNode *n) { return n->subnodes && (n->search_match & SRT_directory); }
_Bool nb_ok(void) { if(X_mode == 0) return G.hits == (kind(&SL_W) != 0) && G.rec == desc(&SL_W); return G.hits == !RL_W.has_matched; }
static void line(void)
{
  OBL(c_ln == 1 && c_nm == (X_mode == 4 ? 2 : 1) && e_ == 0, "a warning names its line and its entry");
  if(X_mode == 0 && SL_L && X_nm == SL_W.name.content) {
    const SearchNode *n = &SL_W; int k = kind(n); OBL(k != 0, "only entries without a proper match are reported"); OBL(X_nl == n->name.length && X_ln == n->line_nr, "line and name of the entry");
    want("config: line \1: "); want(n->regex ? "regex" : "string"); if(k == 1) { want(" never matched a "); want(n->subnodes ? "directory" : "file"); want(": \"\2\"\n"); } else if(k == 2) want(" matches, but not a directory: \"\2\"\n"); else want(" matches not only directories: \"\2\"\n");
    OBL(e_ == o_, "text of the warning"); G.hits++; e_ = 0; }
  else if(X_mode == 0) { _Bool f = 0; for(int i = 0; i < 8; i++) f = f || X_nm == &nm[i]; OBL(f, "entries of the tree"); }
  else if(X_mode == 1 && RL_L && X_nm == RL_W.expression.content) {
    OBL(!RL_W.has_matched, "only expressions without a match are reported"); OBL(X_nl == RL_W.expression.length && X_ln == RL_W.line_nr, "line and text of the expression");
    want("config: line \1: regex never matched a "); want(X_target); want(": \"\2\"\n"); OBL(e_ == o_, "text of the warning"); G.hits++; e_ = 0; }
  else if(X_mode == 1) { _Bool f = 0; for(int i = 0; i < 8; i++) f = f || X_nm == &xm[i]; OBL(f, "expressions of the configuration"); }
  else if(X_mode == 4) { OBL(X_nm1 == SL_W.name.content && X_nl1 == SL_W.name.length && X_nm == X_s.content && X_nl == X_s.length && X_ln == SL_W.line_nr, "line and name of the rule and the matched name"); want("config: line \1: "); want(SL_W.regex ? "regex" : "string"); want(" \"\2\" matches \"\2\"\n"); OBL(e_ == o_, "text of the warning"); e_ = 0; G.hits++; }
  else OBL(0, "no warning expected");
}
static void start(void) { o_ = c_ln = c_nm = 0; e_ = 0; G.hits = G.rec = 0; nidx = sidx = 0; nb_may_die = 0; }
static SearchNode root; static unsigned w_tree, w_ig, w_su; static RegexList *p_ig, *p_su, r_ig, r_su;
static void NBC_printSearchNodeInfos(const SearchNode *n)
{
  if(X_mode == 3) { OBL(n == &root && !w_tree, "the whole tree is reported once"); w_tree = 1; return; }
  OBL(o_ == 0, "complete lines"); OBL(nb_pos(n) < SL_L && desc(n), "entries below a matched directory"); if(n == &SL_W) G.rec++;
}
void p_nodes(void)
{
  start(); X_mode = 0; root.subnodes = NB_NEW(SL); nb_W = SL_w; root.next = &SUB; root.search_match = SRT_none;
#ifdef NB_HAVE_printSearchNodeInfos
  printSearchNodeInfos(&root);
#endif
  OBL(o_ == 0, "complete lines"); if(SL_L) OBL(nb_ok(), "every entry without a proper match is reported once, matched directories are descended into"); COVER("all entries"); if(SL_L && G.hits) { int k = kind(&SL_W); if(k == 1) COVER("never matched"); if(k == 2) COVER("no directory"); if(k == 3) COVER("not only directories"); } if(SL_L && G.rec) COVER("subtree");
}
static void NBC_warnUnmatchedExpressions(const RegexList *l, const char *t)
{
  OBL(o_ == 0, "complete lines"); _Bool p = t[0] == 'p'; const char *x = p ? "path" : "directory"; for(int i = 0; i < 10; i++) { OBL(t[i] == x[i], "kind of the expression"); if(!t[i]) break; }
  if(p) { OBL(l == p_ig && !w_ig, "ignore expressions are checked once"); w_ig = 1; } else { OBL(l == p_su && !w_su, "summarize expressions are checked once"); w_su = 1; }
}
void p_exprs(void)
{
  start(); X_mode = 1; X_target = nd_bool() ? "path" : "directory"; RegexList *l = NB_NEW(RL); nb_W = RL_w;
#ifdef NB_HAVE_warnUnmatchedExpressions
  warnUnmatchedExpressions(l, X_target);
#endif
  OBL(o_ == 0, "complete lines"); if(RL_L) OBL(nb_ok(), "every expression without a match is reported once"); COVER("all expressions"); if(RL_L && G.hits) COVER("expression never matched");
}
void p_tree(void)
{
  start(); X_mode = 3; w_tree = w_ig = w_su = 0; p_ig = nd_bool() ? &r_ig : 0; p_su = nd_bool() ? &r_su : 0; root.ignore_expressions = &p_ig; root.summarize_expressions = &p_su; root.subnodes = nd_bool() ? &SUB : 0;
#ifdef NB_HAVE_printSearchNodeInfos
#ifdef NB_HAVE_warnUnmatchedExpressions
  printSearchTreeInfos(&root);
#endif
#endif
  OBL((w_tree || !root.subnodes) && (w_ig || !p_ig) && (w_su || !p_su), "tree and expressions are reported"); COVER("tree");
}
void p_match(void)
{
  start(); fill_n(&SL_W, 0); static char s[3]; SV_SET(X_s, s, nd_le(1ul << 30), nd_bool());
  X_mode = 4; warnNodeMatches(&SL_W, X_s);
  OBL(o_ == 0 && G.hits == 1, "one complete line"); COVER("ambiguous");
}
