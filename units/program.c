/*NB-UNIT
{ "src": "nb.c", "props": ["C04"], "cppdefs": ["-Dmain=nb_main"],
  "targets": ["nb_main"],
  "entries": ["p_main"],
  "unwind": 14, "bunwind": 13, "timeout": 250, "sat": "cadical",
  "state": ["last","done"],
  "gen": {"ListOfBrokenPathNodes *": "nb_bn_gen()"},
  "deadtypes": ["IntegrityProgressContext"],
  "cands": ["!nb_final()", "nb_pos($p(ListOfBrokenPathNodes *)) == $u"],
  "assumes": ["finishBackup() and finishRestore() as covered by C05-C11, metadataWrite() by C01 and C03, collectGarbageProgress() by C12, repoLock() by C19"],
  "entry_props": {"p_main": ["C04", "C19", "C20", "C24"]}
}
*/
//@PRE
struct nb_G { int last; nb_u32 done; };
//@MID
extern struct nb_G G; const ListOfBrokenPathNodes *nb_bn_gen(void); nb_u64 nb_pos(const ListOfBrokenPathNodes *); _Bool nb_final(void);
//@POST
static void at_exit(int status);
#define NB_ON_DIE at_exit(1)
//@include die.h
//@include sv.h
struct nb_G G;
#define MAYDIE do { if(nd_bool()) die(""); } while(0)
//@include list.h
enum { F_YES, F_NO, F_OTHER };
/* names are recognised by their text, whichever way they are compared */
static char a_repo[4], a_cmd[4], a_path[4], a_line[4], a_mix[8], a_cwd[4], a_full[4], a_rs[4]; static int X_cmd, X_line; /* index into lits */
static const char *const lits[] = { "gc", "integrity", "y", "yes", "n", "no" };
static nb_u64 len(const char *s) { nb_u64 n = 0; while(s[n] && n < 11) n++; return n; }
static _Bool teq(const char *a, const char *b) { for(int i = 0; i < 12; i++) { if(a[i] != b[i]) return 0; if(!a[i]) return 1; } return 0; }
static _Bool lit(const char *s) { return s != a_repo && s != a_cmd && s != a_path && s != a_line && s != a_mix && s != a_mix + 1 && s != a_mix + 2 && s != a_cwd && s != a_full && s != a_rs; }
static _Bool X_abs, X_empty; static nb_u64 l_repo, l_path;
StringView str(const char *s) { StringView v; SV_SET(v, s, lit(s) ? len(s) : s == a_repo ? l_repo : s == a_path ? l_path : 7, 1); return v; }
static _Bool cmp(const char *a, const char *b) { if(a == a_cmd) return X_cmd >= 0 && teq(lits[X_cmd], b); if(a == a_line) return X_line >= 0 && teq(lits[X_line], b); OBL(0, "known strings are compared"); return 0; }
int strcmp(const char *a, const char *b) { return lit(a) ? !cmp(b, a) : !cmp(a, b); }
bool strIsEqual(StringView a, StringView b) { return lit(a.content) ? cmp(b.content, a.content) : cmp(a.content, b.content); }
/* repository path: as given or without trailing slashes */
static _Bool is_repo(StringView v) { return v.content == a_repo || v.content == a_rs; }
StringView strStripTrailingSlashes(StringView s) { StringView v; if(is_repo(s)) { SV_SET(v, a_rs, 3, 0); return v; } SV_SET(v, s.content == a_path ? a_path : s.content == a_full ? a_full : a_cwd, s.length, 0); if(lit(s.content)) { OBL(teq(s.content, "/"), "known path"); return v; } OBL(s.content == a_path || s.content == a_cwd || s.content == a_full, "known path"); return v; }
static struct Allocator { int x; } a1, a2; struct CR_Region { int x; }; static struct CR_Region reg;
CR_Region *CR_RegionNew(void) { return &reg; } void CR_RegionRelease(CR_Region *r) {}
Allocator *allocatorWrapRegion(CR_Region *r) { return &a1; } Allocator *allocatorWrapOneSingleGrowableBuffer(CR_Region *r) { return &a2; }
StringView strAppendPath(StringView a, StringView b, Allocator *al)
{
  MAYDIE; StringView v; if(a.content == a_cwd) { OBL(b.content == a_path && !X_abs, "relative path"); SV_SET(v, a_full, 9, 1); return v; }
  OBL(a.content == a_rs, "path below the repository"); int k = teq(b.content, "config") ? 0 : teq(b.content, "metadata") ? 1 : teq(b.content, "tmp-file") ? 2 : -1; OBL(k >= 0, "known name in the repository"); SV_SET(v, a_mix + k, 9, 1); return v;
}
static _Bool w_cfg, w_md, w_dir, X_cfg, X_md, X_exists, X_isdir; static int n_arg;
bool sPathExists(StringView p) { MAYDIE; if(is_repo(p)) return w_dir = X_exists; if(p.content == a_mix) { w_cfg = X_cfg; return X_cfg; } OBL(p.content == a_mix + 1, "known path"); w_md = 1; return X_md; }
struct stat sStat(StringView p) { OBL(is_repo(p), "the repository"); MAYDIE; struct stat s; s.st_mode = X_isdir ? 0040755 : 0100644; return s; }
/* ---- steps ---- */
enum { S_SEARCH = 1, S_LOADED = 2, S_NEW = 4, S_INIT = 8, S_SHOWN = 16, S_ASKED = 32, S_STORED = 64, S_WRITTEN = 128, S_GC = 256, S_CHECK = 512, S_RINIT = 1024, S_RESTORED = 2048, S_WARN = 4096 };
static int X_lock; static unsigned step; static Metadata M; static SearchNode sn; static RegexList *sumx; static RegexList sum0; static ChangeSummary X_c; static _Bool X_chg; static nb_u64 X_id; static int X_kind; /* 0 backup 1 gc 2 integrity 3 restore 4 invalid */
static _Bool yes(void) { return G.last == 2 || G.last == 3; }
_Bool nb_final(void) { return G.last == 2 || G.last == 3 || G.last == 4 || G.last == 5 || G.last == -2; }
void repoLock(CR_Region *r, StringView p, RepoLockHint h) { OBL(X_lock == 0 && is_repo(p), "the repository is locked once"); OBL(h == RLH_readwrite || X_kind == 2 || X_kind == 3, "exclusive lock for commands which modify the repository"); OBL(step == 0, "locked before anything is read"); OBL(p.content == a_rs, "lockfile inside the repository"); MAYDIE; X_lock = h == RLH_readwrite ? 2 : 1; }
SearchNode *searchTreeLoad(CR_Region *r, StringView p) { OBL(p.content == a_mix && X_kind == 0, "configuration of the repository"); MAYDIE; sn.summarize_expressions = &sumx; step |= S_SEARCH; return &sn; }
Metadata *metadataLoad(CR_Region *r, StringView p) { OBL(X_lock > 0, "metadata is loaded under the lock"); OBL(p.content == a_mix + 1 && X_md && !(step & (S_LOADED | S_NEW)), "metadata of the repository"); MAYDIE; step |= S_LOADED; return &M; }
Metadata *metadataNew(CR_Region *r) { OBL(X_kind == 0 && w_md && !X_md && X_lock == 2 && !(step & (S_LOADED | S_NEW)), "new metadata only if there is none"); step |= S_NEW; return &M; }
void initiateBackup(Metadata *m, SearchNode *s) { OBL(m == &M && s == &sn && X_kind == 0 && (step & S_SEARCH) && !(step & S_INIT), "changes are collected once"); MAYDIE; step |= S_INIT; }
void initiateRestore(Metadata *m, size_t id, StringView p) { OBL(m == &M && X_kind == 3 && (step & S_LOADED) && !(step & S_RINIT), "changes are collected once"); OBL(id == X_id, "the requested backup"); OBL(n_arg == 4 ? p.content == (X_abs ? a_path : a_full) : (lit(p.content) || p.content == a_cwd), "the requested path"); MAYDIE; step |= S_RINIT; }
ChangeSummary printMetadataChanges(const Metadata *m, RegexList *l) { OBL(m == &M && (step & (S_INIT | S_RINIT)), "the changes are shown"); OBL(l == (X_kind == 0 ? sumx : 0), "summarize expressions"); MAYDIE; step |= S_SHOWN; return X_c; }
void printSearchTreeInfos(const SearchNode *s) { OBL(s == &sn && X_kind == 0 && (step & S_INIT) && (step & S_SHOWN) && !(step & S_WARN), "the used configuration is reported once, after all entries are marked"); step |= S_WARN; }
bool containsChanges(const ChangeSummary *c) { OBL(c->changed_attributes == X_c.changed_attributes, "the changes shown"); return X_chg; }
bool sReadLine(FILE *f, Allocator *a, StringView *o) { OBL(f == stdin && !nb_final(), "asked until there is an answer"); OBL((step & S_SHOWN) && X_chg, "asked after the changes have been shown"); if(X_kind == 0) OBL(step & S_WARN, "asked after the warnings"); MAYDIE; step |= S_ASKED; if(nd_bool()) { G.last = -2; return 0; } G.last = X_line = nd_bool() ? -1 : nd_le(5); G.last = X_line; StringView v; SV_SET(v, a_line, nd_le(9), 0); SV_CPY(*o, v); return 1; }
void finishBackup(Metadata *m, StringView r, StringView t) { OBL((step & S_ASKED) && yes(), "nothing is changed before consent"); OBL(X_kind == 0 && m == &M && is_repo(r) && t.content == a_mix + 2 && X_lock == 2 && (step & S_INIT) && !(step & (S_STORED | S_WRITTEN | S_GC)), "data is stored first"); MAYDIE; step |= S_STORED; }
void metadataWrite(Metadata *m, StringView r, StringView t, StringView p) { OBL((step & S_ASKED) && yes(), "nothing is changed before consent"); OBL(X_kind == 0 && m == &M && is_repo(r) && t.content == a_mix + 2 && p.content == a_mix + 1 && X_lock == 2 && (step & S_STORED) && !(step & (S_WRITTEN | S_GC)), "metadata is written after all data"); MAYDIE; step |= S_WRITTEN; }
GCStatistics collectGarbageProgress(const Metadata *m, StringView r, GCProgressCallback cb, void *u)
{
  OBL(m == &M && is_repo(r) && X_lock == 2 && !(step & S_GC), "garbage is collected under the exclusive lock"); if(X_kind == 0) OBL(step & S_WRITTEN, "garbage is collected after the metadata is published"); else OBL(X_kind == 1 && (step & S_LOADED), "garbage collection uses the metadata of the repository");
  if(cb && nd_bool()) { cb(nd_u64(), nd_range(1, 1ul << 40), u); cb(nd_u64(), nd_range(1, 1ul << 40), u); } MAYDIE; step |= S_GC; GCStatistics s; s.deleted_items_count = nd_u64(); s.deleted_items_total_size = nd_u64(); return s;
}
static void fill_bn(ListOfBrokenPathNodes *n, nb_u64 pos) { static PathNode pn; n->node = &pn; }
NB_LIST(ListOfBrokenPathNodes, BL, next, fill_bn)
const ListOfBrokenPathNodes *nb_bn_gen(void) { return BL_gen(); } nb_u64 nb_pos(const ListOfBrokenPathNodes *p) { return NB_POS(BL, p); }
ListOfBrokenPathNodes *checkIntegrity(CR_Region *r, const Metadata *m, StringView p, IntegrityProgressCallback cb, void *u) { OBL(X_kind == 2 && m == &M && is_repo(p) && (step & S_LOADED), "integrity of the repository"); if(cb && nd_bool()) { cb(nd_le(1ul << 40), nd_range(1, 1ul << 50), u); cb(nd_le(1ul << 40), nd_range(1, 1ul << 50), u); } MAYDIE; step |= S_CHECK; return NB_NEW(BL); }
void finishRestore(const Metadata *m, size_t id, StringView r) { OBL((step & S_ASKED) && yes(), "nothing is changed before consent"); OBL(X_kind == 3 && m == &M && id == X_id && is_repo(r) && (step & S_RINIT) && !(step & S_RESTORED), "the shown changes are restored"); MAYDIE; step |= S_RESTORED; }
static void never(void) { OBL(0, "no modification outside of the steps"); }
void sRemove(StringView p) { never(); } void sRename(StringView a, StringView b) { never(); } void sRemoveRecursively(StringView p) { never(); } void sMkdir(StringView p) { never(); } void sSymlink(StringView a, StringView b) { never(); }
void sChmod(StringView p, mode_t m) { never(); } void sChown(StringView p, uid_t u, gid_t g) { never(); } void sLChown(StringView p, uid_t u, gid_t g) { never(); } void sUtime(StringView p, time_t t) { never(); }
GCStatistics collectGarbage(const Metadata *m, StringView r) { return collectGarbageProgress(m, r, 0, 0); }
/* ---- rest ---- */
static _Bool X_num;
const regex_t *sRegexCompile(CR_Region *r, StringView e, StringView f, size_t l) { return (const regex_t *)16; } bool sRegexIsMatching(const regex_t *r, StringView s) { OBL(s.content == a_cmd, "the command"); return X_num; }
size_t sStringToSize(StringView s) { OBL(s.content == a_cmd && X_num, "number of the backup"); MAYDIE; return X_id; }
StringView sGetCurrentDir(Allocator *a) { MAYDIE; StringView v; SV_SET(v, a_cwd, 5, 1); return v; }
static _Bool X_tty; bool sIsTTY(FILE *f) { return X_tty; } uint64_t sTimeMilliseconds(void) { return nd_u64(); }
uint64_t sUint64GetDifference(uint64_t a, uint64_t b) { return a > b ? a - b : b - a; } uint64_t sUint64Mul(uint64_t a, uint64_t b) { nb_u64 r = nd_u64(); return r; } uint64_t sUint64Add(uint64_t a, uint64_t b) { return a + b; }
int printf(const char *f, ...) { return 1; } int puts(const char *s) { return 1; } int putchar(int c) { return c; } void colorPrintf(FILE *s, TextColor c, const char *f, ...) {} void printHumanReadableSize(uint64_t s) {} void setbuf(FILE *f, char *b) {}
static void at_exit(int status)
{
  if(X_kind == 0) OBL(!(step & S_GC) || (step & S_WRITTEN), "garbage is never collected before the metadata is published"); if((step & S_ASKED) && !yes()) { OBL(!(step & (S_STORED | S_WRITTEN | S_GC | S_RESTORED)), "declining changes nothing"); OBL(status != 0, "declining is reported"); }
}
void exit(int s) { at_exit(s); OBL(s != 0, "declining is reported"); OBL((step & S_ASKED) && !yes() && G.last != -1, "ended by the answer of the user"); COVER("declined"); NB_STOP("exit"); __builtin_unreachable(); }
void p_main(void)
{
  X_lock = 0; step = 0; G.last = -1; G.done = 0; X_line = -1; X_exists = nd_bool(); X_isdir = nd_bool(); X_cfg = nd_bool(); X_md = nd_bool(); X_num = nd_bool(); X_id = nd_u64(); X_chg = nd_bool(); X_tty = nd_bool(); sumx = nd_bool() ? &sum0 : 0; X_c.changed_attributes = nd_u64(); l_repo = nd_le(1ul << 40); l_path = nd_le(1ul << 40); n_arg = nd_range(1, 6);
  X_c.new_items.affected_items_count = nd_u64(); X_c.removed_items.affected_items_count = nd_u64(); X_c.lost_items.affected_items_count = nd_u64(); X_abs = nd_bool(); a_path[0] = X_abs ? '/' : nd_bool() ? 'x' : 0;
  X_cmd = nd_bool() ? -1 : nd_le(1); if(X_cmd >= 0) X_num = 0; X_kind = n_arg < 2 ? 4 : n_arg == 2 ? 0 : X_cmd == 0 ? 1 : X_cmd == 1 ? 2 : X_num ? 3 : 4; const char *v[8] = { "nb", a_repo, a_cmd, a_path, a_path, a_path, a_path, 0 };
  nb_main(n_arg, v);
  OBL(X_kind != 4 && X_exists && X_isdir && n_arg <= (X_kind == 3 ? 4 : X_kind ? 3 : 2), "only valid invocations succeed");
  if(X_kind == 0) { OBL(X_cfg, "only repositories with a configuration"); OBL(X_chg ? (step & S_STORED) && (step & S_WRITTEN) && (step & S_GC) && yes() : !(step & (S_STORED | S_WRITTEN | S_GC)), "a confirmed backup is completed"); if(X_chg) COVER("backup"); else COVER("no changes"); if(X_md) OBL(step & S_LOADED, "existing metadata is used"); OBL(step & S_WARN, "unused configuration is reported"); }
  if(X_kind == 1) { OBL(step & S_GC, "garbage is collected"); COVER("gc"); } if(X_kind == 2) { OBL((step & S_CHECK) && BL_L == 0, "damage is reported as error"); COVER("healthy"); } if(X_kind == 3) { OBL((step & S_RINIT) && (X_chg ? (step & S_RESTORED) && yes() : !(step & S_RESTORED)), "a confirmed restore is completed"); COVER("restore"); }
}
