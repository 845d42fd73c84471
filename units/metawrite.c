/*NB-UNIT
{ "src": "metadata.c", "props": ["C01"],
  "targets": ["metadataWrite","metadataNew"],
  "entries": ["p_writelist","p_writenodes","p_write","p_new"],
  "mode": "P", "confirm": ["metart/n_roundtrip","metart/n_load"],
  "needs": {"p_writelist": ["writePathHistoryList"], "p_writenodes": ["writePathList","writePathHistoryList"], "p_write": ["writePathList","writePathHistoryList"]},
  "rename_by_entry": {"p_writenodes": ["*@writePathList","*@writePathHistoryList","*@strSplitPath"], "p_write": ["*@writePathList","*@writePathHistoryList"]},
  "link": ["safe-math.c", "str.c"], "unwind": 22, "timeout": 250,
  "state": ["seg","o","k","pos"],
  "lv": [["nb_bh[nb_W].id","size_t"],["nb_bh[nb_W].ref_count","size_t"],["nb_bh[nb_W].completion_time","time_t"]],
  "gen": {"PathHistory *": "nb_hist_gen()", "PathNode *": "nb_node_gen()", "Backup *": "nb_bk_gen()", "const Backup *": "nb_bk_gen()"},
  "cands": ["G.k == nb_C(nb_bpos($p(Backup *)))", "$u == nb_C(nb_bpos($p(Backup *)))", "nb_W >= nb_bpos($p(Backup *)) || nb_id_ok()", "nb_bpos($p(Backup *)) <= nb_n",
            "$u1 <= $u2", "$u == nb_hpos($p(PathHistory *))", "G.k == nb_hpos($p(PathHistory *))", "$u == nb_cnt($p(PathNode *))", "G.k == nb_cnt($p(PathNode *))",
            "$u == nb_C($u)", "$u1 == nb_C($u2)", "G.k == nb_C($u)", "nb_W >= $u || nb_id_ok()", "G.seg == 1", "$u <= nb_n", "G.seg == 0", "G.seg == 2", "G.o == 0"],
  "assumes": ["the writer appends the given bytes to the temporary file or ends the program (proved in units repo and wrappers)",
     "the path of a node ends with a slash and its name (invariant of the path tree, established by readPathSubnodes and the walk)",
     "states refer to backups of the same metadata object (arbitrary backup with arbitrary id here)"],
  "entry_props": {"p_write": ["C01", "C03"]}
}
*/
//@PRE
struct nb_G { nb_u64 seg, o, k, pos; };
//@MID
extern struct nb_G G; extern Backup *nb_bh; extern nb_u64 nb_W, nb_n; Backup *nb_bk_gen(void); nb_u64 nb_bpos(const Backup *);
PathHistory *nb_hist_gen(void); PathNode *nb_node_gen(void); nb_u64 nb_hpos(const PathHistory *), nb_cnt(const PathNode *), nb_C(nb_u64); _Bool nb_id_ok(void);
//@POST
//@include die.h
//@include sv.h
struct nb_G G; Backup *nb_bh; nb_u64 nb_W;
static nb_u64 nb_i; /* arbitrary watched byte of the current record */
#define MAXLEN (1ul << 40)
#define NB_MEMCPY_SMALL
//@include mem.h
//@include alloc.h
//@include metafmt.h
size_t strlen(const char *s) { return s[0] == 0 ? 0 : 8; }
static Backup nb_bk[2], nb_bh0[1]; static char *nb_lc; static nb_u64 nb_ll;  /* an arbitrary symlink target */
static void fill_hist(PathHistory *p, nb_u64 pos)
{
  p->backup = nd_bool() ? &nb_bk[0] : &nb_bk[1];
  p->state.type = nd_le(3); p->state.uid = nd_u32(); p->state.gid = nd_u32();
  if(p->state.type == PST_symlink) SV_SET(p->state.metadata.symlink_target, nb_lc, nb_ll, 1);
  else if(p->state.type == PST_regular_file) {
    p->state.metadata.file_info.permission_bits = nd_u32(); p->state.metadata.file_info.modification_time = nd_u64(); p->state.metadata.file_info.size = nd_u64();
    for(int i = 0; i < 20; i++) p->state.metadata.file_info.hash[i] = nd_u8();
    p->state.metadata.file_info.slot = nd_u8(); }
  else { p->state.metadata.directory_info.permission_bits = nd_u32(); p->state.metadata.directory_info.modification_time = nd_u64(); }
}
//@include list.h

NB_LIST(PathHistory, HL, next, fill_hist)
PathHistory *nb_hist_gen(void) { return HL_gen(); }
nb_u64 nb_hpos(const PathHistory *p) { return NB_POS(HL, p); }
static int nb_mode; enum { M_LIST, M_NODES, M_META };
static struct RepoWriter { int x; } nb_writer;
static void emit(const nb_u8 *d, nb_u64 n);
void repoWriterWrite(const void *data, size_t n, RepoWriter *w)
{
  OBL(w == &nb_writer, "writer of the metadata");
  OBL(n == 0 || nb_mode == M_NODES || __CPROVER_r_ok(data, n), "written bytes are readable");
  if(n != 0) emit(data, n);
}
/* the next 8 bytes are the little endian encoding of v */
static _Bool word(const nb_u8 *d, nb_u64 n, nb_u64 v)
{
  OBL(G.o + n <= 8, "8 byte value");
  if(nb_i >= G.o && nb_i - G.o < n) OBL(d[nb_i - G.o] == le(v, nb_i), "value of the field");
  G.o += n; if(G.o < 8) return 0;
  G.o = 0; return 1;
}
/* ---------- history of one path ---------- */
static void emit_list(const nb_u8 *d, nb_u64 n)
{
  if(G.seg == 0) { if(word(d, n, HL_L)) G.seg = 1; return; }
  OBL(G.k < HL_L, "no more records than states");
  PathHistory *e = NB_AT(HL, G.k);
  nb_u64 len = rec_len(e);
  OBL(n <= len && G.o <= len - n, "record ends where the state ends");
  if(nb_i >= G.o && nb_i - G.o < n) OBL(d[nb_i - G.o] == rec_byte(e, e->backup->id, nb_i), "bytes of the state in order");
  G.o += n; if(G.o == len) { G.k++; G.o = 0; }
}
void p_writelist(void)
{
  nb_mode = M_LIST; nb_bh = nb_bh0; nb_W = 0;
  nb_ll = nd_le(MAXLEN - 1); nb_lc = malloc(nb_ll + 1); ASSUME(nb_lc != 0); nb_lc[nb_ll] = 0;
  nb_bk[0].id = nd_u64(); nb_bk[1].id = nd_u64();
  nb_i = nd_le(MAXLEN);
  PathHistory *first = NB_NEW(HL);
  G.seg = 0; G.o = 0; G.k = 0; G.pos = 0;
#ifdef NB_HAVE_writePathHistoryList
  writePathHistoryList(first, &nb_writer);
#endif
  OBL(G.seg == 1 && G.o == 0 && G.k == HL_L, "all states are written, and nothing else");
  COVER("list written"); if(HL_L > 2) COVER("long list"); if(HL_L == 0) COVER("empty list");
}
/* ---------- nodes of one directory ---------- */
static char nb_pc[1]; static PathNode nb_sub; static nb_u64 nb_nl[6], nb_cb[6], nb_total;
static void fill_node(PathNode *p, nb_u64 pos)
{
  nb_u64 l = nd_le(MAXLEN); ASSUME(l > 0);
  char *c = malloc(l); ASSUME(c != 0);
  SV_SET(p->path, c, l, nd_bool()); p->hint = nd_u32(); p->policy = nd_le(BPOL_track); p->history = nd_bool() ? 0 : &HL_W; p->subnodes = nd_bool() ? 0 : &nb_sub;
}
NB_LIST(PathNode, NL, next, fill_node)
static int nidx(const PathNode *p) { return p == &NL_W ? 0 : p == &NL_F ? 1 : p == &NL_S ? 2 : p == &NL_O0 ? 3 : p == &NL_O1 ? 4 : 5; }
static _Bool wiped(const PathNode *p) { return (p->hint & 0x1FF) == BH_not_part_of_repository; }
/* number of nodes in front of p which are not wiped */
nb_u64 nb_cnt(const PathNode *p) { return p ? nb_cb[nidx(p)] : nb_total; }
static void facts(const PathNode *p, nb_u64 pos)
{
  if(p == 0 || pos >= NL_L) return;
  nb_u64 c = nb_cnt(p), n = wiped(p) ? 0 : 1;
  ASSUME(c <= pos && c + n <= nb_total && nb_total <= NL_L);
  ASSUME(nb_cnt(p->next) == c + n || p->next == &NL_bad);
  if(pos == 0) ASSUME(c == 0);
}
static void allfacts(void) { facts(&NL_F, 0); facts(&NL_S, 1); facts(&NL_W, NL_w); facts(&NL_O0, NL_p); facts(&NL_O1, NL_p + 1); facts(&NL_O2, NL_p + 2); }
PathNode *nb_node_gen(void)
{
  PathNode *p = NL_gen();
  for(int i = 3; i < 6; i++) { nb_cb[i] = nd_u64(); nb_nl[i] = nd_u64(); }
  ASSUME(NL_p < NL_L || p == 0);
  allfacts();
  for(int i = 0; i < 6; i++) { PathNode *q = i == 0 ? &NL_W : i == 1 ? &NL_F : i == 2 ? &NL_S : i == 3 ? &NL_O0 : i == 4 ? &NL_O1 : &NL_O2; ASSUME(nb_nl[i] >= 1 && nb_nl[i] < q->path.length); }
  return p;
}
static PathNode *cur; static nb_u64 curlen;
static PathNode *by_content(const char *c)
{
  if(c == NL_W.path.content && NL_w < NL_L) return &NL_W; if(c == NL_F.path.content) return &NL_F; if(c == NL_S.path.content) return &NL_S;
  if(c == NL_O0.path.content) return &NL_O0; if(c == NL_O1.path.content) return &NL_O1; if(c == NL_O2.path.content) return &NL_O2; return 0;
}
#ifdef NB_HAVE_writePathList
/* contract of strSplitPath (unit str): the tail is the name of the node */
static PathSplit NBC_strSplitPath(StringView p)
{
  PathNode *n = by_content(p.content); OBL(n != 0 && p.length == n->path.length, "path of a node of the list");
  nb_u64 l = nb_nl[nidx(n)]; PathSplit s;
  SV_SET(s.head, p.content, p.length - l - 1, 0); SV_SET(s.tail, p.content + (p.length - l), l, p.is_terminated);
  cur = n; curlen = l;
  return s;
}
static void NBC_writePathHistoryList(const PathHistory *h, RepoWriter *w)
{
  OBL(w == &nb_writer, "writer of the metadata");
  if(nb_mode == M_META) { OBL(G.seg == 2 && G.o == 0 && G.k == nb_total, "history of the configuration after the backups"); OBL(h == &HL_F, "history of the configuration"); OBL(nb_id_ok(), "ids match the order of the written backups"); G.seg = 3; return; }
  OBL(G.seg == 4 && G.o == 0, "history after the policy"); OBL(h == cur->history, "history of the node"); G.seg = 5;
}
static void NBC_writePathList(const PathNode *n, RepoWriter *w)
{
  OBL(w == &nb_writer, "writer of the metadata");
  if(nb_mode == M_META) { OBL(G.seg == 4 && G.o == 0, "paths last"); OBL(n == &nb_sub, "paths of the metadata"); OBL(nb_id_ok(), "ids match"); G.seg = 5; return; }
  OBL(G.seg == 5 && G.o == 0, "children after the history"); OBL(n == cur->subnodes, "children of the node"); G.seg = 1; G.k++;
}
#endif
static void emit_nodes(const nb_u8 *d, nb_u64 n)
{
  if(G.seg == 0) { if(word(d, n, nb_total)) G.seg = 1; return; }
  if(G.seg == 1) { OBL(cur != 0 && !wiped(cur) && nb_cnt(cur) == G.k, "nodes in order, without wiped ones"); if(word(d, n, curlen)) G.seg = 2; return; }
  if(G.seg == 2) { OBL((const char *)d == cur->path.content + (cur->path.length - curlen) + G.o && n <= curlen - G.o, "name of the node"); G.o += n; if(G.o == curlen) { G.o = 0; G.seg = 3; } return; }
  OBL(G.seg == 3 && n == 1 && d[0] == (nb_u8)cur->policy, "policy of the node"); G.seg = 4;
}
void p_writenodes(void)
{
#ifdef NB_HAVE_writePathList
  nb_mode = M_NODES; nb_bh = nb_bh0; nb_W = 0; nb_i = nd_le(MAXLEN);
  for(int i = 0; i < 6; i++) { nb_cb[i] = nd_u64(); nb_nl[i] = nd_u64(); } nb_total = nd_u64();
  PathNode *first = NB_NEW(NL); allfacts(); if(NL_L == 0) ASSUME(nb_total == 0);
  for(int i = 0; i < 6; i++) { PathNode *q = i == 0 ? &NL_W : i == 1 ? &NL_F : i == 2 ? &NL_S : i == 3 ? &NL_O0 : i == 4 ? &NL_O1 : &NL_O2; ASSUME(nb_nl[i] >= 1 && nb_nl[i] < q->path.length); }
  G.seg = 0; G.o = 0; G.k = 0; G.pos = 0; cur = 0;
  writePathList(first, &nb_writer);
  OBL(G.seg == 1 && G.o == 0 && G.k == nb_total, "all nodes are written, and nothing else");
  COVER("nodes written"); if(nb_total > 2) COVER("several nodes"); if(nb_total == 0) COVER("no nodes"); if(nb_total < NL_L) COVER("wiped nodes");
#endif
}
/* ---------- the file ---------- */
static Metadata M; static StringView X_repo, X_tmp, X_meta; static nb_u64 *nb_c; nb_u64 nb_n; static Backup nb_orig; static _Bool opened, closed;
static _Bool view_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
/* number of referenced backups in front of index i, counting the current one:
   the defining equations at i and the monotonicity between i and nb_W */
Backup *nb_bk_gen(void) { return nb_bh + nd_le(nb_n); }
nb_u64 nb_bpos(const Backup *p) { return p - nb_bh; }
nb_u64 nb_C(nb_u64 i)
{
  if(nb_mode != M_META || i > nb_n) return ~0ul;
  ASSUME(nb_c[0] == (M.current_backup.ref_count > 0));
  ASSUME(nb_c[i] <= i + 1 && nb_c[i] <= nb_total && nb_c[nb_n] == nb_total);
  if(i < nb_n) ASSUME(nb_c[i + 1] == nb_c[i] + (nb_bh[i].ref_count > 0) && nb_c[i + 1] <= nb_total);
  ASSUME(nb_c[i] >= nb_c[0]);
  if(nb_W < nb_n) ASSUME(nb_c[nb_W + 1] == nb_c[nb_W] + (nb_orig.ref_count > 0));
  if(i < nb_W) ASSUME(nb_c[nb_W] >= nb_c[i] + (nb_bh[i].ref_count > 0));
  if(nb_W < i) ASSUME(nb_c[i] >= nb_c[nb_W] + (nb_orig.ref_count > 0));
  ASSUME(nb_c[nb_W] >= nb_c[0]);
  return nb_c[i];
}
_Bool nb_id_ok(void) { return nb_mode != M_META || nb_W >= nb_n || nb_orig.ref_count == 0 || nb_bh[nb_W].id == nb_c[nb_W]; }
static void emit_meta(const nb_u8 *d, nb_u64 n)
{
  if(G.seg == 0) { if(word(d, n, nb_total)) G.seg = 2; return; }
  if(G.seg == 2) {
    OBL(G.k < nb_total, "one time per backup");
    nb_u64 v = 0; _Bool known = 0;
    if(M.current_backup.ref_count > 0 && G.k == 0) { v = M.current_backup.completion_time; known = 1; }
    else if(nb_W < nb_n && nb_orig.ref_count > 0 && nb_c[nb_W] == G.k) { v = nb_orig.completion_time; known = 1; }
    OBL(G.o + n <= 8, "8 byte value");
    if(known) { if(nb_i >= G.o && nb_i - G.o < n) OBL(d[nb_i - G.o] == le(v, nb_i), "time of the backup with this rank"); }
    G.o += n; if(G.o == 8) { G.o = 0; G.k++; }
    return; }
  OBL(G.seg == 3, "number of paths after the history of the configuration");
  if(word(d, n, M.total_path_count)) G.seg = 4;
}
static void emit(const nb_u8 *d, nb_u64 n)
{
  if(nb_mode == M_LIST) emit_list(d, n);
  if(nb_mode == M_NODES) emit_nodes(d, n);
  if(nb_mode == M_META) { OBL(opened && !closed, "open writer"); emit_meta(d, n); }
}
RepoWriter *repoWriterOpenRaw(StringView repo, StringView tmp, StringView src, StringView final)
{
  OBL(!opened && view_is(repo, X_repo) && view_is(tmp, X_tmp) && view_is(final, X_meta), "metadata of this repository"); opened = 1; return &nb_writer;
}
void repoWriterClose(RepoWriter *w) { OBL(w == &nb_writer && opened && !closed, "writer closed once"); OBL(G.seg == 5, "published only when complete"); closed = 1; }
void p_write(void)
{
  nb_mode = M_META; nb_i = nd_le(7); opened = closed = 0;
  SV_SET(X_repo, nb_pc, nd_u64(), 1); SV_SET(X_tmp, nb_pc, nd_u64(), 1); SV_SET(X_meta, nb_pc, nd_u64(), 1);
  nb_n = nd_le(1ul << 32); nb_W = nd_le(nb_n);
  nb_bh = malloc((nb_n + 1) * sizeof(Backup)); nb_c = malloc((nb_n + 2) * sizeof(nb_u64)); ASSUME(nb_bh != 0 && nb_c != 0);
  nb_orig = nb_bh[nb_W]; nb_total = nd_u64();
  M.current_backup.id = 0; M.current_backup.ref_count = nd_u64(); M.current_backup.completion_time = nd_u64();
  M.backup_history = nb_bh; M.backup_history_length = nb_n; M.config_history = &HL_F; M.paths = &nb_sub; M.total_path_count = nd_u64(); nb_u64 total_paths = M.total_path_count;
  Backup cur0 = M.current_backup;
  nb_C(nb_W); nb_C(0); nb_C(nb_n);
  G.seg = 0; G.o = 0; G.k = 0; G.pos = 0;
  metadataWrite(&M, X_repo, X_tmp, X_meta);
  COVER("written");
  OBL(closed, "published");
  OBL(M.backup_history == nb_bh && M.backup_history_length == nb_n && nb_bh[nb_W].ref_count == nb_orig.ref_count && nb_bh[nb_W].completion_time == nb_orig.completion_time, "backups unchanged");
  OBL(M.current_backup.id == cur0.id && M.current_backup.ref_count == cur0.ref_count && M.total_path_count == total_paths, "current backup unchanged");
  if(nb_n > 3 && cur0.ref_count) COVER("several backups");
}
void p_new(void)
{
  static int dummy;
  Metadata *m = metadataNew(&nb_global_region);
  COVER("new");
  OBL(m->r == &nb_global_region && m->current_backup.id == 0 && m->current_backup.ref_count == 0 && m->backup_history_length == 0 && m->backup_history == 0 &&
    m->config_history == 0 && m->total_path_count == 0 && m->paths == 0 && m->path_table == (StringTable *)nb_pc, "empty metadata");
}
StringTable *strTableNew(CR_Region *r) { OBL(r == &nb_global_region, "lives as long as the metadata"); return (StringTable *)nb_pc; }
