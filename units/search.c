/*NB-UNIT
{ "src": "search.c", "props": ["C15"],
  "targets": ["searchNew","searchGetNext"],
  "entries": ["p_new","p_step","p_push","p_pop"], "needs": {"p_push": ["pushCurrentState"], "p_pop": ["finishDirectory"]},
  "mode": "P", "confirm": ["w_search/n_search"],
  "rename_by_entry": {"p_step": ["finishSearchStep@finishSearchStep","finishCurrentNode@finishCurrentNode"]},
  "unwind": 12, "timeout": 250, "sat": "cadical",
  "state": ["nm","mpos","cur","rel","closed","opened","exq","again","st","hx"],
  "gen": {"SearchNode *": "nb_node_gen()", "RegexList *": "nb_rx_gen()"},
  "cands": ["G.nm <= 1", "($p(SearchNode *) == 0) == (G.nm == 0)", "G.nm == 0 || nb_pos($p(SearchNode *)) == G.mpos", "nb_pos($p(SearchNode *)) != 0xfffffffffffffffful", "G.nm == 0 || G.mpos < nb_pos($p(SearchNode *))", "nb_Wp >= nb_pos($p(SearchNode *)) || !nb_wmatch() || G.nm == 1 && G.mpos == nb_Wp", "G.nm == 0 || nb_ismatch(G.mpos)", "nb_rpos($p(RegexList *)) != 0xfffffffffffffffful", "nb_rw >= nb_rpos($p(RegexList *)) || !nb_rmatch()", "!nb_wmark() || nb_rmatch()", "G.hx == 8"],
  "assumes": ["names in a directory are not empty", "directory entries as delivered by readdir()"],
  "entry_props": {"p_step": ["C15", "C09", "C24"], "p_push": ["C15", "C18"]}
}
*/
//@PRE
struct nb_G { nb_u32 nm; nb_u64 mpos; nb_u32 cur, rel, closed, opened, exq, again, st, hx; };
//@MID
extern struct nb_G G; extern nb_u64 nb_Wp, nb_rw; SearchNode *nb_node_gen(void); RegexList *nb_rx_gen(void);
nb_u64 nb_pos(const SearchNode *), nb_rpos(const RegexList *); _Bool nb_wmatch(void), nb_ismatch(nb_u64), nb_rmatch(void), nb_wmark(void);
//@POST
#define NB_ON_DIE OBL(nb_may_die || nb_amb(), "error exit only for ambiguous rules")
static _Bool nb_amb(void);
//@include die.h
//@include sv.h
struct nb_G G; nb_u64 nb_Wp, nb_rw;
static _Bool nb_amb(void) { return G.nm >= 2; }
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
/* ---------- subnodes: a list of any length ---------- */
/* every position has an object: the first two, the watched one, the one a
   cursor is at, its successor, and the one which has matched before */
enum { O_F, O_S, O_W, O_P, O_M, O_T, O_Q, O_X, O_N, NO };
static SearchNode nF, nS, nW, nP, nM, nT, nQ, nX, nN, sub_; static nb_u64 L, P, MP; static nb_u8 mt[NO]; static char nmc[NO]; static regex_t rxn[NO]; static SearchNode before;
static SearchNode *at(nb_u64 p) { if(p >= L) return 0; if(p == nb_Wp) return &nW; if(p == 0) return &nF; if(p == 1) return &nS; if(p == P) return &nP; if(p == MP) return &nM; if(p == 2) return &nT; if(p == P + 1) return &nQ; if(p == nb_Wp + 1) return &nX; if(p == MP + 1) return &nN; return &sub_; }
nb_u64 nb_pos(const SearchNode *x) { if(!x) return L; if(x == &nW) return nb_Wp; if(x == &nF) return 0; if(x == &nS) return 1; if(x == &nP) return P; if(x == &nM) return MP; if(x == &nT) return 2; if(x == &nQ) return P + 1; if(x == &nX) return nb_Wp + 1; if(x == &nN) return MP + 1; return ~0ul; }
static int id(const SearchNode *x) { return x == &nF ? O_F : x == &nS ? O_S : x == &nW ? O_W : x == &nP ? O_P : x == &nQ ? O_Q : x == &nM ? O_M : x == &nT ? O_T : x == &nX ? O_X : x == &nN ? O_N : -1; }
static SearchNode *nth(nb_u64 i) { return i == O_F ? &nF : i == O_S ? &nS : i == O_W ? &nW : i == O_P ? &nP : i == O_Q ? &nQ : i == O_M ? &nM : i == O_T ? &nT : i == O_X ? &nX : i == O_N ? &nN : 0; }
static void link_(void) { nF.next = at(1); nS.next = at(2); nW.next = at(nb_Wp + 1); nP.next = at(P + 1); nQ.next = at(P + 2); nM.next = at(MP + 1); nT.next = at(3); nX.next = at(nb_Wp + 2); nN.next = at(MP + 2); }
SearchNode *nb_node_gen(void) { nb_u64 k = nd_le(2); if(k == 0) return 0; nb_u64 p = nd_u64(); ASSUME(p < L); if(k == 1) P = p; else MP = p; link_(); return at(p); }
_Bool nb_wmatch(void) { return nb_Wp < L && mt[O_W]; }
_Bool nb_ismatch(nb_u64 p) { int i = id(at(p)); return i >= 0 && mt[i]; }
static void fill(SearchNode *n, int i) { SV_SET(n->name, &nmc[i], 1 + nd_le(1ul << 30), 1); n->regex = nd_bool() ? &rxn[i] : 0; n->search_match = nd_le(15); n->policy = nd_le(3); n->subnodes = nd_bool() ? &sub_ : 0; n->subnodes_contain_regex = nd_bool(); n->policy_inherited = nd_bool(); mt[i] = nd_bool(); }
static SearchNode *mk(void) { L = nd_u64(); ASSUME(L <= 1ul << 40); nb_Wp = nd_u64(); P = nd_u64(); MP = 1ul << 42; ASSUME(nb_Wp < 1ul << 41 && P < 1ul << 41); fill(&nF, O_F); fill(&nS, O_S); fill(&nW, O_W); fill(&nP, O_P); fill(&nQ, O_Q); fill(&nM, O_M); fill(&nT, O_T); fill(&nX, O_X); fill(&nN, O_N); link_(); return at(0); }
/* ---------- ignore expressions ---------- */
//@include list.h
static regex_t rxs[8]; static nb_u8 hits[8]; static int sidx;
static void fill_r(RegexList *n, nb_u64 pos) { int i = sidx++ % 8; n->regex = &rxs[i]; hits[i] = nd_bool(); n->has_matched = 0; }
NB_LIST(RegexList, RLx, next, fill_r)
RegexList *nb_rx_gen(void) { sidx = 3; RLx_W.has_matched = nd_bool(); return RLx_gen(); }
nb_u64 nb_rpos(const RegexList *p) { return NB_POS(RLx, p); }
static int ridx(const regex_t *r) { for(int i = 0; i < 8; i++) if(r == &rxs[i]) return i; return -1; }
_Bool nb_rmatch(void) { return RLx_w < RLx_L && hits[ridx(RLx_W.regex)]; }
_Bool nb_wmark(void) { return RLx_W.has_matched; }
static _Bool mk_(RegexList *n) { return G.hx < 8 && n->regex == &rxs[G.hx] && n->has_matched; }
static _Bool rmarked(void) { return mk_(&RLx_W) || mk_(&RLx_F) || mk_(&RLx_S) || mk_(&RLx_O0) || mk_(&RLx_O1) || mk_(&RLx_O2); }
/* ---------- the iterator ---------- */
static struct SearchIterator I; struct CR_Region { int x; }; static struct CR_Region reg; struct Allocator { int x; }; static struct Allocator a_path, a_tmp, a_st, a_bad; struct DirIterator { int x; }; static struct DirIterator d_cur, d_new, d_s[4];
static char c_cur[2], c_new[2], c_ent[2], c_tail[2], c_head[2]; static nb_u64 l_tail, l_cur, l_new; static DirSearchState S0, A_t, A_u; static nb_u64 used0, cap0; static DirSearchState *arr0; static struct stat X_st; static _Bool X_ent, X_ex, X_rec; static SearchResult X_res; static struct stat w_stat; static SearchNode *cur_node;
enum { P_OLD, P_NEW };
void strSet(StringView *d, StringView v) { SV_CPY(*d, v); }
StringView str(const char *c) { nb_u64 n = 0; while(n < 4 && c[n]) n++; StringView v; SV_SET(v, c, n, 1); return v; }
bool strIsEmpty(StringView s) { return s.length == 0; }
StringView strUnterminated(const char *s, size_t n) { OBL(s == c_cur && n == S0.path_length && G.cur == 0, "path of the current directory"); StringView v; SV_SET(v, c_cur, n, 0); return v; }
StringView strCopy(StringView s, Allocator *a) { MAYDIE; StringView v; if(s.content == c_cur) { OBL(s.length == S0.path_length && a == &a_tmp, "path of the current directory"); SV_SET(v, c_head, s.length, 1); return v; } OBL(a == &a_path && s.content[0] == '/' && s.content[1] == 0, "search starts at the root directory"); SV_SET(v, c_cur, 1, 1); return v; }
static _Bool is_name(StringView n) { if(S0.is_dir_search) return n.content == c_tail && n.length == l_tail; SearchNode *c = cur_node; return c && n.content == c->name.content && n.length == c->name.length; }
StringView strAppendPath(StringView a, StringView b, Allocator *al) { OBL(a.content == c_head && a.length == S0.path_length && al == &a_path && G.cur == 0, "file below the current directory"); OBL(is_name(b), "name of the file"); MAYDIE; G.cur = 1; l_new = nd_u64(); ASSUME(l_new > a.length && l_new < 1ul << 50); StringView v; SV_SET(v, c_new, l_new, 1); return v; }
PathSplit strSplitPath(StringView p) { OBL(p.content == c_ent && X_ent, "path of the directory entry"); PathSplit s; SV_SET(s.head, c_ent, 3, 0); SV_SET(s.tail, c_tail, l_tail, 1); return s; }
static bool match(const SearchNode *n) { int i = id(n); OBL(i >= 0 && n == at(nb_pos(n)) && S0.is_dir_search, "names below the current directory"); if(mt[i]) { if(G.nm == 0) { G.nm = 1; G.mpos = nb_pos(n); } else if(G.mpos != nb_pos(n)) G.nm = 2; } return mt[i]; }
static int nameid(StringView a) { for(int i = 0; i < NO; i++) if(a.content == &nmc[i]) { OBL(a.length == nth(i)->name.length, "whole name"); return i; } return -1; }
bool strIsEqual(StringView a, StringView b) { int i = nameid(a); StringView o; if(i < 0) { i = nameid(b); SV_CPY(o, a); } else SV_CPY(o, b); OBL(i >= 0 && o.content == c_tail && o.length == l_tail, "names are compared completely"); OBL(!nth(i)->regex, "regular expressions are not names"); return match(nth(i)); }
bool sRegexIsMatching(const regex_t *r, StringView s) { int i = ridx(r); if(i >= 0) { OBL(G.cur == 1 && s.content == c_new && s.length == l_new, "ignore expressions match the full path"); if(hits[i]) G.hx = i; return hits[i]; } for(i = 0; i < NO; i++) if(r == &rxn[i]) { OBL(nth(i)->regex == r && s.content == c_tail && s.length == l_tail, "expressions match the name"); return match(nth(i)); } OBL(0, "expression of the configuration"); return 0; }
bool sPathExists(StringView p) { OBL(!S0.is_dir_search && G.cur == 1 && p.content == c_new && p.length == l_new && !G.exq, "configured path"); MAYDIE; G.exq = 1; return X_ex; }
static struct stat stat_(StringView p, unsigned k) { OBL(G.cur == 1 && p.content == c_new && p.length == l_new && !G.st, "the found path"); MAYDIE; G.st = k; return X_st; }
struct stat sStat(StringView p) { return stat_(p, 2); } struct stat sLStat(StringView p) { return stat_(p, 1); }
DirIterator *sDirOpen(StringView p) { OBL(G.opened == 0 && (G.cur == 1 ? p.content == c_new && p.length == l_new : p.content == c_cur && p.length == 1), "directory which was found"); MAYDIE; G.opened = 1; return &d_new; }
StringView sDirGetNext(DirIterator *d) { OBL(S0.is_dir_search && d == &d_cur && !G.closed && !X_rec, "current directory"); MAYDIE; X_rec = 1; X_ent = nd_bool(); StringView v; SV_SET(v, c_ent, X_ent ? 1 + nd_le(1ul << 40) : 0, 1); return v; }
void sDirClose(DirIterator *d) { OBL(S0.is_dir_search && d == &d_cur && !G.closed, "directory is closed once"); G.closed = 1; }
void warnNodeMatches(const SearchNode *n, StringView s) { OBL(nb_pos(n) < L && nb_ismatch(nb_pos(n)), "rules which match"); }
size_t sSizeMul(size_t a, size_t b) { MAYDIE; ASSUME(a < 1ul << 50 && b < 1000); return a * b; } size_t sSizeAdd(size_t a, size_t b) { MAYDIE; ASSUME(a < 1ul << 50 && b < 1ul << 50); return a + b; }
static DirSearchState *fresh; static nb_u64 fresh_n;
/* p_step uses a few shapes of the stack, p_push and p_pop stacks of any size */
static DirSearchState sa[6], sb[6]; static _Bool X_sym; static nb_u64 aw; static DirSearchState A_w;
void *allocate(Allocator *a, size_t n)
{ /* a growable buffer keeps its content */
  OBL(a == &a_st && n >= sizeof(DirSearchState), "buffer of the search states"); MAYDIE; fresh_n = nd_u64(); ASSUME(fresh_n <= 1ul << 42 && fresh_n * sizeof(DirSearchState) <= n && n < (fresh_n + 1) * sizeof(DirSearchState)); OBL(fresh_n >= used0 && fresh_n > 0, "large enough");
  if(X_sym) { fresh = malloc(sizeof(DirSearchState) * fresh_n); ASSUME(fresh != 0); if(aw < used0) fresh[aw] = A_w; return fresh; }
  ASSUME(fresh_n <= 6); fresh = sb; fresh[0] = A_u; fresh[1] = A_t; return fresh;
}
void CR_RegionRelease(CR_Region *r) { OBL(r == &reg && !G.rel, "released once"); G.rel = 1; }
CR_Region *CR_RegionNew(void) { MAYDIE; return &reg; } void *CR_RegionAlloc(CR_Region *r, size_t n) { OBL(r == &reg && n == sizeof I, "memory of the iterator"); MAYDIE; return &I; }
static int nal; Allocator *allocatorWrapOneSingleGrowableBuffer(CR_Region *r) { OBL(r == &reg, "memory of the iterator"); return nal++ == 0 ? &a_path : nal == 2 ? &a_tmp : nal == 3 ? &a_st : &a_bad; }
/* rest of the step after skipping a file: the same contract again */
static _Bool state_eq(const DirSearchState *a, const DirSearchState *b) { return a->is_dir_search == b->is_dir_search && a->path_length == b->path_length && (a->is_dir_search ? a->access.search.dir == b->access.search.dir && a->access.search.subnodes == b->access.search.subnodes && a->access.search.fallback_policy == b->access.search.fallback_policy : a->access.current_node == b->access.current_node); }
static void adv(void) { if(!S0.is_dir_search) S0.access.current_node = cur_node->next; }
static void intact(void) { OBL(I.r == &reg && I.current_path_buffer == &a_path && I.tmp_buffer == &a_tmp && I.state_stack.state_array_buffer == &a_st && I.ignore_expressions == NB_AT(RLx, 0), "iterator remains valid"); OBL(I.state_stack.used <= I.state_stack.capacity && I.state_stack.capacity > 0 && (I.state_stack.state_array == arr0 ? I.state_stack.capacity == cap0 : I.state_stack.state_array == fresh && I.state_stack.capacity <= fresh_n), "stack of search states"); if(used0 > 0 && I.state_stack.used >= used0) OBL(state_eq(&I.state_stack.state_array[used0 - 1], &A_t), "states of the parent directories are kept"); if(used0 > 1 && I.state_stack.used >= used0 - 1) OBL(state_eq(&I.state_stack.state_array[used0 - 2], &A_u), "states of the parent directories are kept"); OBL(I.current_path.content == (G.cur ? c_new : c_cur) && I.current_path.length == (G.cur ? l_new : l_cur) && I.state.path_length <= I.current_path.length, "current path"); if(I.state_stack.used) OBL(I.state_stack.state_array[I.state_stack.used - 1].path_length <= I.state.path_length, "path of the parent directory"); }
static SearchResult again(SearchIterator *it) { if(S0.is_dir_search && S0.access.search.fallback_policy != BPOL_none) OBL(rmarked(), "matched ignore expressions are noted"); OBL(!nb_wmark() || nb_rmatch(), "only matched ignore expressions are noted"); OBL(it == &I && !G.again && !G.st && !G.rel && !G.closed && !G.opened, "rest of the step"); adv(); intact(); OBL(state_eq(&I.state, &S0) && I.state_stack.used == used0, "skipped paths leave no trace"); MAYDIE; G.again = 1; X_res.type = nd_le(31); X_res.stats.st_ino = nd_u64(); return X_res; }
static SearchResult NBC_finishSearchStep(SearchIterator *it) { OBL(S0.is_dir_search && it->state.is_dir_search, "directory search"); return again(it); }
static SearchResult NBC_finishCurrentNode(SearchIterator *it) { OBL(!S0.is_dir_search && !it->state.is_dir_search, "direct access"); return again(it); }
static void any_state(DirSearchState *s, SearchNode *n, struct DirIterator *d) { s->is_dir_search = nd_bool(); s->path_length = nd_le(1ul << 48); if(s->is_dir_search) { s->access.search.dir = d; s->access.search.subnodes = n; s->access.search.fallback_policy = nd_le(3); } else s->access.current_node = n; }
static SearchNode *deep(SearchNode *n) { return n->subnodes; }
static void entered(const SearchNode *n, BackupPolicy pol, _Bool rootp)
{ /* search state of a directory */
  _Bool direct = n && n->policy == BPOL_none && !n->subnodes_contain_regex; OBL(I.state.is_dir_search == !direct && I.state.path_length == (rootp ? 0 : l_new), "state of the directory");
  if(direct) { OBL(I.state.access.current_node == n->subnodes && !G.opened, "configured paths are accessed directly"); COVER("direct"); } else { OBL(G.opened && I.state.access.search.dir == &d_new && I.state.access.search.subnodes == (n ? n->subnodes : 0) && I.state.access.search.fallback_policy == pol, "files of the directory are searched with its policy"); COVER("directory"); }
}
void p_new(void)
{
  G.nm = G.cur = G.rel = G.closed = G.opened = G.exq = G.again = G.st = 0; G.hx = 8; nal = 0; arr0 = 0; S0.path_length = 0; S0.is_dir_search = 0; static SearchNode root; fill(&root, 0); sidx = 0; static RegexList *ig; X_sym = 1; ig = NB_NEW(RLx); root.ignore_expressions = &ig; used0 = 0; l_cur = 1; c_cur[0] = '/'; c_cur[1] = 0; before = root; BackupPolicy pol = root.policy;
  SearchIterator *it = searchNew(&root);
  OBL(it == &I && I.state_stack.used == 0, "fresh search"); intact(); entered(&root, pol, 1); OBL(root.policy == before.policy && root.search_match == before.search_match && root.subnodes == before.subnodes, "configuration is not modified"); COVER("new");
}
void p_step(void)
{
  G.nm = G.cur = G.rel = G.closed = G.opened = G.exq = G.again = G.st = 0; G.hx = 8; X_ent = X_rec = 0; nal = 5; X_ex = nd_bool(); X_st.st_mode = nd_u32(); X_st.st_ino = nd_u64(); l_tail = 1 + nd_le(1ul << 30); l_cur = nd_range(1, 1ul << 49);
  SearchNode *l = mk(); sidx = 0; I.r = &reg; I.current_path_buffer = &a_path; I.tmp_buffer = &a_tmp; I.ignore_expressions = NB_NEW(RLx); nb_rw = RLx_w; SV_SET(I.current_path, c_cur, l_cur, 1); X_sym = 0; used0 = nd_bool() ? 0 : 2; cap0 = used0 && nd_bool() ? 2 : 4; I.state_stack.capacity = cap0; I.state_stack.used = used0; I.state_stack.state_array_buffer = &a_st;
  any_state(&I.state, l, &d_cur); if(!I.state.is_dir_search) { I.state.access.current_node = at(P); } ASSUME(I.state.path_length <= l_cur); cur_node = I.state.is_dir_search ? 0 : at(P); S0 = I.state;
  any_state(&A_t, 0, &d_s[1]); any_state(&A_u, 0, &d_s[2]); ASSUME(used0 == 0 || A_t.path_length <= S0.path_length); ASSUME(used0 < 2 || A_u.path_length <= A_t.path_length); fresh = 0; I.state_stack.state_array = arr0 = sa; sa[0] = A_u; sa[1] = A_t;
  before = nW; SearchNode *cn = cur_node; unsigned omatch[NO]; for(int i = 0; i < NO; i++) omatch[i] = nth(i)->search_match;
  SearchResult r = searchGetNext(&I);
  OBL(nW.policy == before.policy && nW.subnodes == before.subnodes && nW.regex == before.regex && nW.subnodes_contain_regex == before.subnodes_contain_regex, "configuration is not modified");
  if(G.again) { OBL(r.type == X_res.type && r.stats.st_ino == X_res.stats.st_ino, "result of the rest of the step"); OBL(S0.is_dir_search ? G.nm == 0 && !nb_wmatch() : !X_ex && G.exq, "only uncovered paths are skipped"); OBL(nW.search_match == before.search_match, "nothing has matched"); COVER("skipped"); if(S0.is_dir_search && S0.access.search.fallback_policy != BPOL_none) COVER("ignored"); return; }
  if(S0.is_dir_search ? !X_ent : !cur_node)
  { /* end of the directory */
    OBL(G.closed == S0.is_dir_search && !G.st && !G.opened, "directory is closed at its end"); OBL(nW.search_match == before.search_match, "nothing has matched");
    if(used0 == 0) { OBL(r.type == SRT_end_of_search && G.rel, "end of the search"); COVER("end"); return; }
    OBL(r.type == SRT_end_of_directory && !G.rel && I.state_stack.used == used0 - 1 && state_eq(&I.state, &A_t), "back to the parent directory"); intact(); COVER("up"); return;
  }
  OBL(!G.closed && !G.rel && (S0.is_dir_search || (G.exq && X_ex)), "existing paths are reported"); 
  const SearchNode *n = S0.is_dir_search ? G.nm ? at(G.mpos) : 0 : cn; BackupPolicy pol = n ? n->policy : S0.access.search.fallback_policy;
  if(S0.is_dir_search) { OBL(!nb_wmatch() || n == &nW, "the matching entry is used, ambiguous rules are an error"); OBL(G.nm <= 1, "ambiguous rules are an error"); if(!n) { OBL(pol != BPOL_none, "only covered paths are reported"); OBL(!nb_rmatch(), "ignored paths are not reported"); COVER("inherited"); } else COVER("configured"); }
  SearchResultType t = (X_st.st_mode & 0170000) == 0100000 ? SRT_regular_file : (X_st.st_mode & 0170000) == 0120000 ? SRT_symlink : (X_st.st_mode & 0170000) == 0040000 ? SRT_directory : SRT_other;
  OBL(r.node == n && r.policy == pol && r.type == t && r.path.content == c_new && r.path.length == l_new && r.stats.st_ino == X_st.st_ino && r.stats.st_mode == X_st.st_mode, "found path with its entry, policy and type"); OBL(G.st == (n && n->subnodes ? 2 : 1), "symlinks are only followed for configured parents");
  for(int i = 0; i < NO; i++) OBL(nth(i)->search_match == (n == nth(i) ? omatch[i] | t : omatch[i]), "matches are recorded in the entry");
  adv(); if(t != SRT_directory) { intact(); OBL(I.state_stack.used == used0 && state_eq(&I.state, &S0) && !G.opened, "search continues in the directory"); COVER("file"); return; }
  OBL(I.state_stack.used == used0 + 1 && state_eq(&I.state_stack.state_array[used0], &S0), "state of the directory is saved"); intact(); entered(n, pol, 0); if(I.state_stack.state_array != arr0) COVER("stack grows");
}
static void sym(void)
{
  G.nm = G.cur = G.rel = G.closed = G.opened = G.exq = G.again = G.st = 0; G.hx = 8; X_sym = 1; I.r = &reg; I.state_stack.state_array_buffer = &a_st; cap0 = nd_range(1, 1ul << 40); used0 = nd_le(cap0); fresh = 0; fresh_n = 0; arr0 = malloc(sizeof(DirSearchState) * cap0); ASSUME(arr0 != 0); I.state_stack.state_array = arr0; I.state_stack.capacity = cap0; I.state_stack.used = used0; aw = nd_u64();
  any_state(&I.state, 0, &d_cur); S0 = I.state; any_state(&A_w, 0, &d_s[1]); if(aw < used0) arr0[aw] = A_w;
}
void p_push(void)
{
  sym();
#ifdef NB_HAVE_pushCurrentState
  pushCurrentState(&I);
#endif
  nb_u64 have = I.state_stack.state_array == arr0 ? cap0 : fresh_n; OBL(I.state_stack.state_array == arr0 || I.state_stack.state_array == fresh, "memory of the stack"); OBL(I.state_stack.used == used0 + 1 && I.state_stack.used <= I.state_stack.capacity && I.state_stack.capacity <= have, "one more state"); OBL(state_eq(&I.state_stack.state_array[used0], &S0) && state_eq(&I.state, &S0), "current state is saved"); if(aw < used0) { OBL(state_eq(&I.state_stack.state_array[aw], &A_w), "saved states are kept"); COVER("kept"); } if(fresh) COVER("grown"); else COVER("not grown");
}
void p_pop(void)
{
  sym(); SearchResult r;
#ifdef NB_HAVE_finishDirectory
  SearchResult q = finishDirectory(&I); G.st = q.type;
#endif
  if(used0 == 0) { OBL(G.st == SRT_end_of_search && G.rel == 1, "end of the search"); COVER("end"); return; }
  OBL(G.st == SRT_end_of_directory && !G.rel && I.state_stack.used == used0 - 1 && I.state_stack.capacity == cap0 && I.state_stack.state_array == arr0, "one state less"); if(aw == used0 - 1) OBL(state_eq(&I.state, &A_w), "state of the parent directory"); if(aw < used0) OBL(state_eq(&arr0[aw], &A_w), "saved states are kept"); COVER("up");
}
