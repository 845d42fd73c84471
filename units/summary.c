/*NB-UNIT
{ "src": "informations.c", "props": ["C20"],
  "targets": ["printMetadataChanges","containsChanges"],
  "entries": ["p_add","p_sum","p_contains","p_line","p_walk","p_regex","p_start"],
  "mode": "P", "confirm": ["w_summary/n_list"],
  "needs": {"p_add": ["addNode"], "p_sum": ["changeSummaryAdd"], "p_line": ["printNode","printNodePath"], "p_walk": ["recursePrintOverTree","printNode","addNode","changeSummaryAdd","matchesRegexList"], "p_regex": ["matchesRegexList"], "p_start": ["recursePrintOverTree"]},
  "rename_by_entry": {"p_line": ["*@printNodePath"], "p_walk": ["recursePrintOverTree@recursePrintOverTree","*@printNode","*@addNode","*@changeSummaryAdd","*@matchesRegexList"], "p_start": ["*@recursePrintOverTree"]},
  "unwind": 8, "timeout": 250, "sat": "cadical",
  "state": ["pos","st","tok","hit","pr","hx"], 
  "gen": {"const PathNode *": "nb_node_gen()", "PathNode *": "nb_node_gen()", "RegexList *": "nb_rx_gen()"},
  "genset": {"ChangeSummary": "__CPROVER_havoc_object(&$x);"},
  "cands": ["G.pos == nb_pos($p(PathNode *))", "G.st == 0", "nb_is(&$p(ChangeSummary))", "nb_W < nb_pos($p(PathNode *)) || !G.hit", "nb_W >= nb_pos($p(PathNode *)) || G.hit", "nb_W >= nb_rpos($p(RegexList *)) || !nb_rmatch()", "nb_rclean() || nb_rmatch()", "G.hx == 8"],
  "entry_props": {"p_regex": ["C20", "C24"]},
  "assumes": ["every path has a history state, a lone state is an existing one"]
}
*/
//@PRE
struct nb_G { nb_u64 pos, tok; nb_u32 st, hx; _Bool hit, pr; };
//@MID
extern struct nb_G G; extern nb_u64 nb_W; PathNode *nb_node_gen(void); RegexList *nb_rx_gen(void);
nb_u64 nb_pos(const PathNode *), nb_rpos(const RegexList *); _Bool nb_is(const ChangeSummary *), nb_rmatch(void), nb_rclean(void);
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_W;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static _Bool sv_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
//@include list.h
static Metadata M; static PathHistory H0, H1; static char pc[8]; static int nidx; static nb_u8 match_[8];
_Bool sv_over; size_t sSizeAdd(size_t a, size_t b) { if(a > ~0ul - b) { OBL(sv_over, "overflow of a total"); nb_may_die = 1; die(""); } return a + b; }
uint64_t sUint64Add(uint64_t a, uint64_t b) { if(a > ~0ul - b) { OBL(sv_over, "overflow of a total"); nb_may_die = 1; die(""); } return a + b; }
static unsigned rhint(void) { unsigned h = nd_le(0xF); ASSUME(h <= BH_other_to_directory); if(h == 0 || nd_bool()) { h = nd_bool() ? 0 : 1; unsigned a = (nd_u32() & 0x1F) << 4; if(a) h = a; } return h | (nd_bool() ? BH_policy_changed : 0) | (nd_bool() ? BH_loses_history : 0); }
static PathNode N; static const PathState *es;
static void node(void)
{
  SV_SET(N.path, pc, 3, 1); N.hint = rhint(); N.policy = nd_le(3); N.history = &H0; H0.next = nd_bool() ? &H1 : 0; H0.state.type = nd_le(3); H1.state.type = nd_le(3); H1.next = (PathHistory *)8; ASSUME(H0.next || H0.state.type != PST_non_existing);
  H0.state.metadata.file_info.size = nd_u64(); H1.state.metadata.file_info.size = nd_u64(); es = H0.state.type == PST_non_existing ? &H1.state : &H0.state;
}
static void csum(ChangeSummary *c) { c->new_items.affected_items_count = nd_u64(); c->new_items.affected_items_total_size = nd_u64(); c->removed_items.affected_items_count = nd_u64(); c->removed_items.affected_items_total_size = nd_u64(); c->lost_items.affected_items_count = nd_u64(); c->lost_items.affected_items_total_size = nd_u64(); c->changed_items.affected_items_count = nd_u64(); c->changed_items.affected_items_total_size = nd_u64(); c->changed_attributes = nd_u64(); c->other_changes_exist = nd_bool(); c->affects_parent_timestamp = nd_bool(); }
static _Bool deq(ChangeDetail a, ChangeDetail b, nb_u64 n, nb_u64 s) { return a.affected_items_count == b.affected_items_count + n && a.affected_items_total_size == b.affected_items_total_size + s; }
enum { ATTR = BH_owner_changed | BH_permissions_changed | BH_timestamp_changed };
static _Bool tych(unsigned h) { return h >= BH_regular_to_symlink && h <= BH_other_to_directory; }
static _Bool impl(const PathNode *n) { return n->policy == BPOL_none && (n->hint == BH_added || (n->hint != 0 && (n->hint & ~ATTR) == 0)); }
/* ---------- totals ---------- */
void p_add(void)
{
  node(); ChangeSummary c, o; csum(&c); o = c; _Bool ts = nd_bool(); sv_over = 1; const PathNode *n = &N; unsigned h = N.hint & 0x1FF, hh = N.hint;
#ifdef NB_HAVE_addNode
  addNode(&N, &c, ts);
#endif
  nb_u64 sz = es->type == PST_regular_file ? es->metadata.file_info.size : 0; int k = h == BH_added ? 0 : h == BH_removed ? 1 : h == BH_not_part_of_repository ? 2 : !tych(h) && (h & BH_content_changed) ? 3 : -1;
  OBL(N.hint == hh && deq(c.new_items, o.new_items, k == 0, k == 0 ? sz : 0), "new paths"); OBL(deq(c.removed_items, o.removed_items, k == 1, k == 1 ? sz : 0), "removed paths"); OBL(deq(c.lost_items, o.lost_items, k == 2, k == 2 ? sz : 0), "lost paths"); OBL(deq(c.changed_items, o.changed_items, k == 3, k == 3 ? sz : 0), "changed paths");
  if(k < 0 && N.hint > BH_unchanged && !impl(n)) { OBL(c.other_changes_exist, "other changes are noted"); COVER("other"); } else OBL(c.other_changes_exist == o.other_changes_exist, "no other change");
  if(k < 0 && (N.hint <= BH_unchanged || impl(n))) { OBL(c.changed_attributes == o.changed_attributes && c.affects_parent_timestamp == o.affects_parent_timestamp, "not counted"); COVER("silent"); }
  OBL(c.affects_parent_timestamp == (o.affects_parent_timestamp || k == 0 || k == 1 || k == 3 || (k == 2 && N.policy == BPOL_mirror && !(N.hint & BH_policy_changed)) || (k < 0 && tych(h))), "timestamp of the parent directory");
  if(k == 0) COVER("new"); if(k == 1) COVER("removed"); if(k == 2) COVER("lost"); if(k == 3) COVER("changed");
}
void p_sum(void)
{
  ChangeSummary a, b, o; csum(&a); csum(&b); o = a; sv_over = 1;
#ifdef NB_HAVE_changeSummaryAdd
  changeSummaryAdd(&a, &b);
#endif
#define S(f) OBL(deq(a.f, o.f, b.f.affected_items_count, b.f.affected_items_total_size), "sum of the totals"); OBL(a.f.affected_items_count >= o.f.affected_items_count && a.f.affected_items_total_size >= o.f.affected_items_total_size, "no overflow")
  S(new_items); S(removed_items); S(lost_items); S(changed_items); OBL(a.changed_attributes == o.changed_attributes + b.changed_attributes && a.changed_attributes >= o.changed_attributes, "sum of attributes"); OBL(a.other_changes_exist == (o.other_changes_exist || b.other_changes_exist), "other changes"); OBL(a.affects_parent_timestamp == o.affects_parent_timestamp, "timestamp of the parent directory only"); COVER("sum");
}
void p_contains(void)
{
  ChangeSummary c; csum(&c); _Bool r = containsChanges(&c);
  OBL(r == (c.new_items.affected_items_count || c.removed_items.affected_items_count || c.lost_items.affected_items_count || c.changed_items.affected_items_count || c.changed_attributes || c.other_changes_exist), "changes are claimed exactly if there are some"); if(r) COVER("changes"); else COVER("none");
}
/* ---------- one line ---------- */
static unsigned n_out, n_pre, n_path, n_nl; static char X_pre;
static void text(const char *f) { n_out++; OBL(!n_nl, "one line"); for(int i = 0; i < 7 && f[i]; i++) if(f[i] == '\n') { OBL(f[i + 1] == 0, "one line"); n_nl = 1; } }
void colorPrintf(FILE *s, TextColor c, const char *f, ...) { OBL(s == stdout, "standard output"); text(f); if(n_out == 1) { OBL(f[0] == X_pre && f[1] == X_pre || (X_pre == '<' && f[0] == '<' && f[1] == '>'), "kind of change"); OBL(f[2] == ' ' && f[3] == 0, "kind of change"); n_pre++; } }
int printf(const char *f, ...) { text(f); OBL(n_pre == 1 && n_path == 1, "details follow the path"); return 1; } int puts(const char *s) { n_nl++; return 1; } int putchar(int c) { OBL(c != '\n' || !n_nl, "one line"); if(c == '\n') n_nl = 1; return c; }
static void NBC_printNodePath(const PathNode *n, const TextColor c) { OBL(n == &N && n_pre == 1 && n_path == 0, "path follows the kind of change"); n_path++; }
void p_line(void)
{
  node(); ChangeSummary c; csum(&c); _Bool sum = nd_bool(); sv_over = 1; unsigned h = N.hint & 0x1FF; _Bool cont = c.new_items.affected_items_count || c.removed_items.affected_items_count || c.lost_items.affected_items_count || c.changed_items.affected_items_count;
  X_pre = h == BH_added ? '+' : h == BH_removed ? '-' : h == BH_not_part_of_repository ? N.policy == BPOL_mirror ? 'x' : '?' : tych(h) ? '<' : (h & BH_content_changed) || (sum && cont) ? '!' : h ? '@' : ':'; n_out = n_pre = n_path = n_nl = 0;
#ifdef NB_HAVE_printNode
  printNode(&N, &c, sum);
#endif
  OBL(n_pre == 1 && n_path == 1 && n_nl == 1, "one line with the kind of change and the path"); COVER("line");
}
/* ---------- the walk over the tree ---------- */
static void fill_node(PathNode *p, nb_u64 pos) { int i = nidx++ % 8; SV_SET(p->path, &pc[i], 1, 1); match_[i] = nd_bool(); p->hint = rhint(); p->policy = nd_le(3); p->history = nd_bool() ? &H0 : &H1; p->subnodes = nd_bool() ? 0 : &N; }
NB_LIST(PathNode, NL, next, fill_node)
PathNode *nb_node_gen(void) { nidx = 3; return NL_gen(); }
nb_u64 nb_pos(const PathNode *p) { return NB_POS(NL, p); }
static RegexList X_rl0; static RegexList *X_rl; static _Bool X_print, w_m; static nb_u64 X_tokS; static ChangeSummary *cs0;
/* the summary carries an opaque token, so that each addition is seen once */
static _Bool istok(const ChangeSummary *c, nb_u64 t) { return c->new_items.affected_items_count == t && c->new_items.affected_items_total_size == t; }
static _Bool zero(ChangeDetail d) { return d.affected_items_count == 0 && d.affected_items_total_size == 0; }
_Bool nb_is(const ChangeSummary *c) { return istok(c, G.tok) && (G.pos || (zero(c->new_items) && zero(c->removed_items) && zero(c->lost_items) && zero(c->changed_items) && !c->changed_attributes && !c->other_changes_exist && !c->affects_parent_timestamp)); }
static PathNode *cur(void) { return NB_AT(NL, G.pos); }
static _Bool M_(StringView p) { for(int i = 0; i < 8; i++) if(p.content == &pc[i]) return match_[i]; return 0; }
static _Bool dir(const PathNode *n) { return (n->history->state.type == PST_non_existing && n->history->next ? n->history->next->state.type : n->history->state.type) == PST_directory; }
static _Bool X_sum(void) { PathNode *n = cur(); return n->policy != BPOL_none && dir(n) && X_rl && M_(n->path); }
static bool NBC_matchesRegexList(const PathNode *n, RegexList *l) { OBL(n == cur() && l == X_rl && G.st == 0, "expressions are matched against the path"); OBL(n->policy != BPOL_none && dir(n), "only directories with a policy are summarized"); return l && M_(n->path); }
static ChangeSummary NBC_recursePrintOverTree(const Metadata *m, const PathNode *l, RegexList *r, const bool print)
{
  ChangeSummary c; csum(&c);
  if(!cs0) { OBL(m == &M && l == NB_AT(NL, 0) && r == X_rl && print, "the whole tree is printed"); c.new_items.affected_items_count = 77; return c; }
  PathNode *n = cur(); OBL(G.st == 0 && n && l == n->subnodes && m == &M, "subnodes are visited once"); _Bool s = X_sum(); unsigned h = N.hint & 0; h = n->hint & 0x1FF; _Bool chg = n->hint > BH_unchanged && !impl(n);
  OBL(r == (s ? 0 : X_rl), "expressions are only used outside of summarized directories"); OBL(print == (X_print && !s && (!chg || (h & (ATTR | BH_content_changed | BH_fresh_hash)))), "listing below the path"); G.st = 1; G.pr = 0; X_tokS = nd_u64(); c.new_items.affected_items_count = X_tokS; c.new_items.affected_items_total_size = X_tokS; if(nd_bool()) { c.new_items.affected_items_count = X_tokS = 0; c.new_items.affected_items_total_size = 0; }
  cs0[0] = c; return c;
}
static void NBC_printNode(const PathNode *n, const ChangeSummary *c, const bool s) { OBL((G.st & 1) && n == cur() && istok(c, X_tokS) && s == X_sum() && !G.pr, "the path is listed once"); OBL(X_print, "only where listing is wanted"); G.pr = 1; if(n == &NL_W && NL_w == G.pos) G.hit = 1; }
static _Bool lst(void) { PathNode *n = cur(); if(!X_print) return 0; ChangeSummary *c = cs0; _Bool any = c->new_items.affected_items_count || c->removed_items.affected_items_count || c->lost_items.affected_items_count || c->changed_items.affected_items_count || c->changed_attributes || c->other_changes_exist; if(X_sum()) return n->hint > BH_unchanged || any; return n->hint > BH_unchanged && !impl(n) && !(n->hint == BH_timestamp_changed && c->affects_parent_timestamp); }
/* the path and everything below it are counted in any order, its line may be printed before or in between */
static void counted(unsigned k) { G.st |= k; if(G.st != 7) return; OBL(G.pr == lst(), "exactly the changed paths are listed"); if(G.pr) COVER("listed"); else COVER("not listed"); G.st = 0; G.pos++; }
static void NBC_addNode(const PathNode *n, ChangeSummary *c, const bool ts) { OBL((G.st & 1) && !(G.st & 2) && n == cur() && (G.st & 4 ? istok(c, G.tok) : nb_is(c)) && ts == cs0->affects_parent_timestamp, "the path is counted once"); MAYDIE; G.tok = nd_u64(); c->new_items.affected_items_count = G.tok; c->new_items.affected_items_total_size = G.tok; counted(2); }
static void NBC_changeSummaryAdd(ChangeSummary *c, const ChangeSummary *s) { OBL((G.st & 1) && !(G.st & 4) && (G.st & 2 ? istok(c, G.tok) : nb_is(c)) && istok(s, X_tokS) && c != s, "everything below is counted once"); MAYDIE; G.tok = nd_u64(); c->new_items.affected_items_count = G.tok; c->new_items.affected_items_total_size = G.tok; counted(4); }
void p_walk(void)
{
  static ChangeSummary last; cs0 = &last; nidx = 0; H0.next = nd_bool() ? &H1 : 0; H1.next = 0; H0.state.type = nd_le(3); H1.state.type = nd_le(3); ASSUME(H1.state.type != PST_non_existing); PathNode *l = NB_NEW(NL); X_rl = nd_bool() ? &X_rl0 : 0; X_print = nd_bool(); G.pos = 0; G.st = 0; G.tok = 0; G.hit = 0; nb_W = NL_w; ChangeSummary r; csum(&r);
  w_m = 0;
#ifdef NB_HAVE_recursePrintOverTree
  r = recursePrintOverTree(&M, l, X_rl, X_print);
#endif
  OBL(G.st == 0 && G.pos == NL_L, "every path is handled"); OBL(nb_is(&r), "totals of the whole list"); COVER("done"); if(NL_L > 4) COVER("many");
}
void p_start(void)
{
  cs0 = 0; nidx = 0; M.paths = NB_NEW(NL); X_rl = nd_bool() ? &X_rl0 : 0; ChangeSummary r = printMetadataChanges(&M, X_rl); OBL(r.new_items.affected_items_count == 77, "totals of the tree"); COVER("start");
}
/* ---------- summarize expressions ---------- */
static regex_t rxs[8]; static nb_u8 hits[8]; static int sidx;
bool sRegexIsMatching(const regex_t *r, StringView s) { OBL(sv_is(s, N.path), "the full path"); for(int i = 0; i < 8; i++) if(r == &rxs[i]) { if(hits[i]) G.hx = i; return hits[i]; } OBL(0, "expression of the configuration"); return 0; }
static void fill_r(RegexList *n, nb_u64 pos) { int i = sidx++ % 8; n->regex = &rxs[i]; hits[i] = nd_bool(); n->has_matched = 0; }
NB_LIST(RegexList, RLx, next, fill_r)
RegexList *nb_rx_gen(void) { sidx = 3; RLx_W.has_matched = nd_bool(); return RLx_gen(); }
nb_u64 nb_rpos(const RegexList *p) { return NB_POS(RLx, p); }
_Bool nb_rmatch(void) { if(RLx_w >= RLx_L) return 0; for(int i = 0; i < 8; i++) if(RLx_W.regex == &rxs[i]) return hits[i]; return 0; }
_Bool nb_rclean(void) { return !RLx_W.has_matched; }
static _Bool mk_(RegexList *n) { return G.hx < 8 && n->regex == &rxs[G.hx] && n->has_matched; }
static _Bool rmarked(void) { return mk_(&RLx_W) || mk_(&RLx_F) || mk_(&RLx_S) || mk_(&RLx_O0) || mk_(&RLx_O1) || mk_(&RLx_O2); }
void p_regex(void)
{
  node(); sidx = 0; G.hx = 8; RegexList *l = NB_NEW(RLx); nb_W = RLx_w; _Bool m = 0;
#ifdef NB_HAVE_matchesRegexList
  m = matchesRegexList(&N, l);
#endif
  if(nb_rmatch()) OBL(m, "matching expressions are found"); if(RLx_L == 0) OBL(!m, "no expression matches"); if(m) OBL(rmarked(), "matched summarize expressions are noted"); OBL(nb_rclean() || nb_rmatch(), "only matched summarize expressions are noted"); if(m) COVER("match"); else COVER("none");
}
