/*NB-UNIT
{ "src": "metadata.c", "props": ["C01","C02"],
  "targets": ["metadataLoad"],
  "entries": ["p_prims","p_readpoint","p_readfull","p_readnodes","p_load"],
  "mode": "P", "confirm": ["metart/n_roundtrip","metart/n_load"],
  "needs": {"p_prims": ["read8","read32","read64","readBytes"], "p_readpoint": ["readPathHistory","read8","read32","read64","readBytes"],
            "p_readfull": ["readFullPathHistory","readPathHistory","read64"], "p_readnodes": ["readPathSubnodes","readFullPathHistory","read8","read64"],
            "p_load": ["metadataLoad","readFullPathHistory","readPathSubnodes","read64"]},
  "rename_by_entry": {"p_readpoint": ["*@read8","*@read32","*@read64","*@readBytes"], "p_readfull": ["*@readPathHistory","*@read64"],
      "p_readnodes": ["*@readPathSubnodes","*@readFullPathHistory","*@read8","*@read64","*@strAppendPath"],
      "p_load": ["*@readPathSubnodes","*@readFullPathHistory","*@read64"]},
  "link": ["str.c", "safe-math.c"], "bunwind": 22, "unwind": 22, "timeout": 250,
  "state": ["k","o","pos","nread","seg"],
  "lv": [["nb_rpos","size_t"]],
  "gen": {"PathHistory *": "nb_hist_gen()", "PathNode *": "nb_node_gen()"},
  "cands": ["$u1 <= $u2", "$u == G.nread", "G.nread >= 1", "G.nread == $u + 1", "G.nread <= nb_cnt",
            "(G.nread == 1) == (nb_last == nb_first)", "$p(PathHistory *) == nb_last", "G.nread < 2 || nb_prev->next == nb_last", "nb_rpos == G.pos", "$u == G.pos", "G.nread == 0 || nb_last->next == 0",
            "$p(PathNode *) == nb_cur", "(G.nread == 0) == ($p(PathNode *) == 0)", "G.seg == 1", "nb_nodes_ok()", "$u <= nb_cnt",
            "$u == G.nread + 0 * G.k", "G.o == 8 * (1 + $u)", "nb_W >= $u || nb_bk_ok(0)", "G.k == $u", "G.o == 0", "G.seg == 0", "G.pos <= nb_csz()"],
  "assumes": ["sGetFilesContent returns the complete file (unit wrappers)", "memcpy, memchr, strlen as specified by ISO C"],
  "entry_props": {"p_readpoint": ["C01", "C02", "C08"]}
}
*/
//@PRE
struct nb_G { nb_u64 k, o, pos, nread, seg; };
//@MID
extern struct nb_G G; extern PathHistory *nb_last, *nb_prev, *nb_first; extern PathNode *nb_cur; extern size_t nb_rpos; extern nb_u64 nb_cnt, nb_W;
PathHistory *nb_hist_gen(void); PathNode *nb_node_gen(void); _Bool nb_nodes_ok(void); _Bool nb_bk_ok(Metadata *); nb_u64 nb_csz(void);
//@POST
//@include die.h
//@include sv.h
struct nb_G G; PathHistory *nb_last, *nb_prev, *nb_first; PathNode *nb_cur; size_t nb_rpos; nb_u64 nb_cnt, nb_W;
static nb_u64 nb_i; /* arbitrary watched byte of the current record */
#define MAXLEN (1ul << 40)
#define NB_MEMCPY_SMALL
#define NB_MEMCPY_LIMIT 8
#define NB_MEMCPY_FRESH
//@include mem.h
#define NB_ALLOC_MAX (1ul << 45)
static void *nb_hook(nb_u64 size);
#define NB_ALLOC_HOOK nb_hook
//@include alloc.h
//@include metafmt.h
static nb_u64 nb_z; /* prophecy: the length strlen() will find */
static int nb_mode; static nb_u64 g_tlen;
size_t strlen(const char *s) { if(nb_mode != 1) return 0; if(s[g_tlen] == 0) ASSUME(nb_z <= g_tlen); OBL(__CPROVER_r_ok(s + nb_z, 1), "string"); ASSUME(s[nb_z] == 0); return nb_z; }
enum { M_PRIM, M_POINT, M_FULL, M_NODES, M_LOAD };
static FileContent C; static Metadata M; static StringView X_path;
nb_u64 nb_csz(void) { return C.size; }
static _Bool view_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
static void common(void) { SV_SET(X_path, "m", 1, 1); M.r = &nb_global_region; nb_i = nd_le(MAXLEN); nb_z = nd_le(MAXLEN); nb_watch = nd_u64(); }
/* ---------- primitive readers: proved on the bytes of the file ---------- */
static nb_u64 le64(const char *p) { nb_u64 v = 0; for(int i = 7; i >= 0; i--) v = v << 8 | (nb_u8)p[i]; return v; }
void p_prims(void)
{
#if defined(NB_HAVE_read8) && defined(NB_HAVE_read32) && defined(NB_HAVE_read64) && defined(NB_HAVE_readBytes)
  nb_mode = M_PRIM; common();
  C.size = nd_le(MAXLEN); char *o = malloc(C.size); ASSUME(o != 0); C.content = o;
  nb_u64 p = nd_le(MAXLEN); ASSUME(p <= C.size); nb_rpos = p; nb_u64 left = C.size - p;
  unsigned w = nd_le(3);
  if(w == 0) { nb_may_die = left < 1; nb_u8 v = read8(C, &nb_rpos, X_path); OBL(left >= 1 && v == (nb_u8)C.content[p] && nb_rpos == p + 1, "read8"); COVER("read8"); }
  if(w == 1) { nb_may_die = left < 4; nb_u32 v = read32(C, &nb_rpos, X_path);
    OBL(left >= 4 && nb_rpos == p + 4 && v == ((nb_u32)(nb_u8)C.content[p] | (nb_u32)(nb_u8)C.content[p + 1] << 8 | (nb_u32)(nb_u8)C.content[p + 2] << 16 | (nb_u32)(nb_u8)C.content[p + 3] << 24), "read32"); COVER("read32"); }
  if(w == 2) { nb_may_die = left < 8; nb_u64 v = read64(C, &nb_rpos, X_path); OBL(left >= 8 && nb_rpos == p + 8 && v == le64(C.content + p), "read64"); COVER("read64"); }
  if(w == 3) { nb_u64 n = nd_u64(); nb_may_die = left < n; nb_u8 *b = malloc(n < MAXLEN ? n : MAXLEN); ASSUME(b != 0);
    readBytes(C, &nb_rpos, b, n, X_path); OBL(left >= n && nb_rpos == p + n, "readBytes");
    if(nb_watch < n) OBL(b[nb_watch] == (nb_u8)C.content[p + nb_watch], "bytes copied"); COVER("readBytes"); }
#endif
}
/* ---------- contracts of the primitive readers, as a ghost stream ----------
   The file is an arbitrary byte sequence: every read returns arbitrary bytes
   and advances G.pos; the byte at offset nb_i of the current record is
   remembered in g_w. A read beyond the end of the file ends the program. */
static nb_u8 g_w; static nb_u64 g_recstart, g_left, g_id; static nb_u8 g_type; static _Bool g_bad;
static _Bool cnt_read, nb_file_read; static nb_u64 nb_want_id, g_time, g_total;
static void nb_node_done(void);
static nb_u64 stream(FileContent c, size_t *pos, StringView path, nb_u64 n, nb_u64 v)
{
  OBL(c.content == C.content && c.size == C.size && view_is(path, X_path), "the metadata file is read");
  OBL(*pos == G.pos + G.o, "fields are read one after the other"); G.pos += G.o; G.o = 0;
  if(C.size - *pos < n) { nb_may_die = 1; NB_STOP("unexpected end"); }
  nb_u64 o = *pos - g_recstart;
  if(nb_i >= o && nb_i - o < n) g_w = le(v, nb_i - o);
  G.pos += n; *pos = G.pos;
  return v;
}
static uint8_t NBC_read8(const FileContent c, size_t *pos, StringView path)
{
  nb_u8 v = nd_u8();
  if(nb_mode == M_NODES) { OBL(G.seg == 3, "policy after the name"); G.seg = 4; g_type = v; }
  v = stream(c, pos, path, 1, v);
  if(nb_mode == M_POINT && *pos - g_recstart == 9) { g_type = v; if(v > PST_directory) nb_may_die = 1; }
  if(nb_mode == M_NODES && v > BPOL_track) nb_may_die = 1;
  return v;
}
static uint32_t NBC_read32(const FileContent c, size_t *pos, StringView path) { nb_u32 v = nd_u32(); return stream(c, pos, path, 4, v); }
static uint64_t NBC_read64(const FileContent c, size_t *pos, StringView path)
{
  nb_u64 v = nd_u64();
  if(nb_mode == M_FULL) { OBL(!cnt_read, "count read once"); cnt_read = 1; nb_cnt = v; }
  if(nb_mode == M_NODES) {
    if(!cnt_read) { cnt_read = 1; nb_cnt = v; G.seg = 1; v = stream(c, pos, path, 8, v); return v; }
    if(G.nread > 0) nb_node_done();
    OBL(G.seg == 1, "name length first"); G.seg = 2; OBL(G.nread < nb_cnt, "no more nodes than recorded");
    v = stream(c, pos, path, 8, v);
    G.o = v; if(v == 0 || v > C.size - G.pos) nb_may_die = 1;
    else if(C.content[G.pos] == '.' && (v == 1 || (v == 2 && C.content[G.pos + 1] == '.'))) nb_may_die = 1;
    return v;
  }
  if(nb_mode == M_LOAD) {
    if(!cnt_read) { cnt_read = 1; nb_cnt = v; if(v > ~0ul / sizeof(Backup)) nb_may_die = 1; }
    else if(G.seg == 0) { OBL(G.k < nb_cnt, "one time per backup"); if(G.k == nb_W) ASSUME(v == g_time); G.k++; }
    else { OBL(G.seg == 1, "number of paths after the history of the configuration"); G.seg = 2; ASSUME(v == g_total); }
  }
  v = stream(c, pos, path, 8, v);
  if(nb_mode == M_POINT && *pos - g_recstart == 8) { g_id = v; ASSUME(v == nb_want_id || v >= M.backup_history_length); if(v >= M.backup_history_length) nb_may_die = 1; }
  if(nb_mode == M_POINT && *pos - g_recstart == 25 && g_type == PST_symlink && v > C.size - *pos) nb_may_die = 1;
  return v;
}
static void NBC_readBytes(const FileContent c, size_t *pos, uint8_t *buf, const size_t n, StringView path)
{
  if(n > C.size - *pos) { nb_may_die = 1; NB_STOP("unexpected end"); }
  OBL(n == 0 || __CPROVER_w_ok(buf, n), "buffer is large enough");
  nb_u64 o = *pos - g_recstart; nb_u8 w = nd_u8();
  OBL(c.content == C.content && c.size == C.size && view_is(path, X_path) && *pos == G.pos, "fields are read one after the other");
  if(nb_i >= o && nb_i - o < n) { g_w = w; buf[nb_i - o] = w; }
  if(nb_mode == M_POINT && g_type == PST_symlink) { g_tlen = n; if(nb_z < n && buf[nb_z] == 0) nb_may_die = 1; } /* a target with a null byte */
  G.pos += n; *pos = G.pos;
}
/* ---------- one state ---------- */
static PathHistory HOOKED; static _Bool hook_h; static PathNode N0, N1; static int hook_n = 0; static Metadata MM;
static void *nb_hook(nb_u64 size)
{
  if(nb_mode == M_POINT && hook_h && size == sizeof HOOKED) { hook_h = 0; return &HOOKED; }
  if(nb_mode == M_NODES && size == sizeof(PathNode)) { PathNode *n = nb_cur == &N0 ? &N1 : &N0; PathNode fresh; *(PathNode *)n = *(PathNode *)&fresh; return n; }
  if(nb_mode == M_LOAD && size == sizeof MM && hook_h) { hook_h = 0; return &MM; }
  return 0;
}
static Backup nb_bks[3]; static nb_u64 oldref[3];
void p_readpoint(void)
{
#ifdef NB_HAVE_readPathHistory
  nb_mode = M_POINT; common(); hook_h = 1;
  C.content = 0; C.size = nd_le(MAXLEN); G.pos = nb_rpos = g_recstart = nd_le(MAXLEN); ASSUME(G.pos <= C.size);
  nb_u64 p = nb_rpos;
  M.backup_history_length = nd_le(1ul << 50);
  nb_u64 idx = nd_le(1ul << 50);  /* arbitrary backup and its neighbours */
  for(int i = 0; i < 3; i++) nb_bks[i].ref_count = oldref[i] = nd_u64();
  M.backup_history = &nb_bks[1] - idx;
  nb_may_die = 0;
  { PathHistory fresh; HOOKED = fresh; }
  if(oldref[1] == ~0ul) nb_may_die = 1;
  PathHistory *h = 0;
  nb_want_id = idx;
  h = readPathHistory(&nb_alloc_malloc, C, &nb_rpos, X_path, &M);
  COVER("state read");
  OBL(!nb_may_die || oldref[1] == ~0ul, "a malformed state is rejected");
  OBL(h->state.type <= PST_directory, "defined state type");
  OBL(h->next == 0, "single element");
  OBL(nb_rpos - p == rec_len(h) && nb_rpos == G.pos && nb_rpos <= C.size, "the complete record is consumed, and nothing else");
  OBL(h->backup == M.backup_history + g_id && g_id < M.backup_history_length, "backup of the state");
  if(nb_i < rec_len(h)) OBL(rec_byte(h, g_id, nb_i) == g_w, "the state is the one encoded in the file");
  for(int i = 0; i < 3; i++) OBL(nb_bks[i].ref_count == oldref[i] + (i == 1), "states per backup are counted");
  if(g_type == PST_symlink) { COVER("symlink");
    OBL(h->state.metadata.symlink_target.content[h->state.metadata.symlink_target.length] == 0 && h->state.metadata.symlink_target.is_terminated, "terminated target"); }
  if(g_type == PST_regular_file) COVER("regular"); if(g_type == PST_directory) COVER("directory"); if(g_type == PST_non_existing) COVER("non-existing");
#endif
}

/* ---------- a full history ---------- */
static PathHistory X1, X2, XF;
PathHistory *nb_hist_gen(void)
{
  /* arbitrary moment while reading: nb_prev and nb_last are the last two */
  X1.next = nd_bool() ? &X2 : 0; X2.next = nd_bool() ? &X1 : 0; XF.next = nd_bool() ? &X2 : 0;
  nb_last = nd_bool() ? &XF : &X2; nb_prev = nd_bool() ? &XF : &X1;
  return nb_last;
}
static void advance(FileContent c, size_t *pos, StringView path, Metadata *m, nb_u64 least)
{
  OBL(c.content == C.content && c.size == C.size && view_is(path, X_path) && m == (nb_mode == M_LOAD ? &MM : &M), "the metadata file is read");
  OBL(*pos == G.pos && G.o == 0, "parts are read one after the other");
  if(nd_bool()) { nb_may_die = 1; NB_STOP("malformed part"); }
  nb_u64 n = nd_range(least, MAXLEN); ASSUME(n <= C.size - G.pos); G.pos += n; *pos = G.pos;
}
static PathHistory *NBC_readPathHistory(Allocator *a, const FileContent c, size_t *pos, StringView path, Metadata *m)
{
  OBL(a != 0 && cnt_read, "arguments");
  OBL(G.nread < nb_cnt, "no more records than states");
  if(G.nread >= 2) OBL(nb_prev->next == nb_last, "linked in file order");
  advance(c, pos, path, m, 9);
  G.nread++;
  if(G.nread == 1) { XF.next = 0; nb_first = nb_last = &XF; return &XF; }
  nb_prev = nb_last; nb_last = nb_prev == &X1 ? &X2 : &X1;
  nb_last->next = 0;
  return nb_last;
}
static void start(void)
{
  common(); cnt_read = 0; nb_may_die = 0;
  C.content = 0; C.size = nd_le(MAXLEN); G.pos = nb_rpos = nd_le(MAXLEN); ASSUME(G.pos <= C.size); G.o = G.k = G.seg = G.nread = 0;
}
void p_readfull(void)
{
#ifdef NB_HAVE_readFullPathHistory
  nb_mode = M_FULL; start();
  nb_first = nb_last = nb_prev = 0;
  PathHistory *h = readFullPathHistory(&nb_alloc_malloc, C, &nb_rpos, X_path, &M);
  COVER("history read");
  OBL(!nb_may_die, "malformed input is rejected");
  OBL(cnt_read && G.nread == nb_cnt, "every state is read");
  OBL(nb_rpos == G.pos && G.pos <= C.size, "position after the last record");
  OBL((h == 0) == (nb_cnt == 0), "empty only if no states are recorded");
  if(nb_cnt > 0) { OBL(h == nb_first, "first state first"); OBL(nb_last->next == 0, "list ends"); }
  if(nb_cnt >= 2) { OBL(nb_prev->next == nb_last, "linked in file order"); COVER("several states"); }
#endif
}
/* ---------- the nodes of one directory ---------- */
static PathHistory *g_hist; static PathNode *g_sub, *g_prev, NS, *X_parent; static PathNode PP; static nb_u8 g_pol; static _Bool g_mapped; static PathNode g_prevcopy;
static StringView g_path; static int tbl; static char g_pc[1];
static _Bool nb_node_ok(void)
{
  return G.nread > 0 && nb_cur != 0 && nb_cur->policy == g_pol && g_pol <= BPOL_track && nb_cur->history == g_hist && g_hist != 0 && nb_cur->subnodes == g_sub && nb_cur->hint == BH_none &&
    view_is(nb_cur->path, g_path) && g_mapped && nb_cur->next == g_prev && (G.nread > 1) == (g_prev != 0);
}
_Bool nb_nodes_ok(void) { return G.nread == 0 ? nb_cur == 0 && g_prev == 0 : nb_node_ok(); }
static void nb_node_done(void)
{
  OBL(G.seg == 1 && nb_node_ok(), "node has the recorded name, policy, history and children, and is linked and mapped");
  g_mapped = 0; g_prev = nb_cur; G.k++;
}
PathNode *nb_node_gen(void)
{
  nb_cur = nd_bool() ? 0 : nd_bool() ? &N0 : &N1; g_prev = nd_bool() ? 0 : nb_cur == &N0 ? &N1 : &N0;
  g_pol = nd_u8(); g_hist = nd_bool() ? 0 : &XF; g_sub = nd_bool() ? 0 : &NS; g_mapped = nd_bool(); SV_SET(g_path, g_pc, nd_u64(), 1);
  if(nb_cur) { nb_cur->policy = nd_u32(); nb_cur->history = nd_bool() ? 0 : &XF; nb_cur->subnodes = nd_bool() ? 0 : &NS; nb_cur->hint = nd_u32(); nb_cur->next = nd_bool() ? 0 : nb_cur == &N0 ? &N1 : &N0; SV_SET(nb_cur->path, g_pc, nd_u64(), 1); }
  return nb_cur;
}
void *memchr(const void *s, int c, size_t n)
{
  OBL(n == 0 || __CPROVER_r_ok(s, n), "searched bytes are readable");
  if(nd_bool()) { if(nb_watch < n) ASSUME(((const char *)s)[nb_watch] != (char)c); if(nb_mode == M_POINT && nb_z < n) ASSUME(((const char *)s)[nb_z] != (char)c); return 0; }
  nb_u64 j = nd_u64(); ASSUME(j < n && ((const char *)s)[j] == (char)c); if(c == 0 || c == '/') nb_may_die = 1; return (char *)s + j;
}
static StringView NBC_strAppendPath(StringView a, StringView b, Allocator *al)
{
  OBL(G.seg == 2, "path after the name"); G.seg = 3; OBL(al != 0, "allocator");
  if(X_parent) OBL(view_is(a, X_parent->path), "path below the parent"); else OBL(a.length == 0, "path below the root");
  OBL(b.content == C.content + G.pos && b.length == G.o, "name as recorded");
  OBL(G.o > 0 && G.o <= C.size - G.pos, "non-empty name inside the file");
  if(nb_watch < G.o) OBL(b.content[nb_watch] != '/' && b.content[nb_watch] != 0, "valid name");
  OBL(!(b.content[0] == '.' && (G.o == 1 || (G.o == 2 && b.content[1] == '.'))), "no dot names");
  SV_SET(g_path, g_pc, nd_u64(), 1); g_mapped = 0;
  return g_path;
}
void strTableMap(StringTable *t, StringView key, void *d)
{
  OBL(t == (StringTable *)&tbl, "table of the metadata"); OBL(G.seg >= 3 && view_is(key, g_path), "mapped under its path"); OBL(!g_mapped, "mapped once");
  g_mapped = 1; nb_cur = d;
}
static PathHistory *NBC_readFullPathHistory(Allocator *a, const FileContent c, size_t *pos, StringView path, Metadata *m)
{
  OBL(a != 0, "allocator");
  if(nb_mode == M_LOAD) { OBL(G.seg == 0 && cnt_read && G.k == nb_cnt, "history of the configuration after the backups"); OBL(m->backup_history_length == nb_cnt, "backups known"); G.seg = 1; }
  else { OBL(G.seg == 4, "history after the policy"); G.seg = 5; }
  g_hist = nd_bool() ? 0 : &XF;
  if(nb_mode == M_NODES && g_hist == 0) nb_may_die = 1; /* a path without states */
  advance(c, pos, path, m, 8);
  return g_hist;
}
static PathNode *NBC_readPathSubnodes(Allocator *a, const FileContent c, size_t *pos, StringView path, PathNode *parent, Metadata *m)
{
  OBL(a != 0, "allocator");
  g_sub = nd_bool() ? 0 : &NS;
  if(nb_mode == M_LOAD) { OBL(G.seg == 2 && parent == 0, "paths last"); OBL(m->path_table == (StringTable *)&tbl, "table exists"); OBL(m->total_path_count == g_total, "number of paths"); G.seg = 3; advance(c, pos, path, m, 8); if(G.pos != C.size) nb_may_die = 1; }
  else { OBL(G.seg == 5 && parent == nb_cur && view_is(parent->path, g_path) && g_mapped, "children after the history"); G.seg = 1; g_pol = g_type; G.nread++; advance(c, pos, path, m, 8); }
  return g_sub;
}
void p_readnodes(void)
{
#ifdef NB_HAVE_readPathSubnodes
  nb_mode = M_NODES; start();
  char *o = malloc(C.size); ASSUME(o != 0); C.content = o;
  M.path_table = (StringTable *)&tbl; X_parent = nd_bool() ? 0 : &PP; SV_SET(PP.path, g_pc, nd_u64(), 1);
  nb_cur = 0; g_prev = 0; g_mapped = 0;
  PathNode *r = readPathSubnodes(&nb_alloc_malloc, C, &nb_rpos, X_path, X_parent, &M);
  COVER("nodes read");
  OBL(!nb_may_die, "malformed input is rejected");
  OBL(cnt_read && G.nread == nb_cnt && G.seg == 1 && G.o == 0, "every node is read");
  OBL(nb_rpos == G.pos && G.pos <= C.size, "position after the last node");
  if(nb_cnt > 0) nb_node_done();
  OBL(r == nb_cur && (r == 0) == (nb_cnt == 0), "list of all nodes");
  if(nb_cnt > 1) COVER("several nodes"); if(nb_cnt == 0) COVER("no nodes"); if(!X_parent) COVER("top level");
#endif
}
/* ---------- the file ---------- */
_Bool nb_bk_ok(Metadata *m) { return nb_W >= nb_cnt || (MM.backup_history[nb_W].id == nb_W && MM.backup_history[nb_W].completion_time == (time_t)g_time && MM.backup_history[nb_W].ref_count == 0); }
FileContent sGetFilesContent(CR_Region *r, StringView path) { OBL(view_is(path, X_path), "path of the metadata"); nb_file_read = 1; return C; }
StringTable *strTableNew(CR_Region *r) { OBL(r == &nb_global_region, "lives as long as the metadata"); return (StringTable *)&tbl; }
void p_load(void)
{
#ifdef NB_HAVE_metadataLoad
  nb_mode = M_LOAD; start(); hook_h = 1; G.pos = 0;
  nb_W = nd_u64(); g_time = nd_u64(); g_total = nd_u64();
  Metadata *m = metadataLoad(&nb_global_region, X_path);
  COVER("loaded");
  OBL(!nb_may_die, "malformed input is rejected");
  OBL(m == &MM && m->r == &nb_global_region, "metadata lives in the given region");
  OBL(G.pos == C.size && G.seg == 3, "the whole file is consumed");
  OBL(m->backup_history_length == nb_cnt, "number of backups");
  OBL((m->backup_history == 0) == (nb_cnt == 0), "array of backups");
  if(nb_W < nb_cnt) { OBL(nb_bk_ok(m), "times and ids of the backups"); COVER("backups"); }
  OBL(m->current_backup.ref_count == 0 && m->current_backup.id == 0, "new backup unused");
  OBL(m->config_history == g_hist && m->paths == g_sub && m->total_path_count == g_total && m->path_table == (StringTable *)&tbl, "parts stored");
#endif
}
