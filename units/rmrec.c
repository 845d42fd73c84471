/*NB-UNIT
{ "src": "safe-wrappers.c", "props": ["C22"],
  "targets": ["sRemoveRecursively","sRemoveRecursivelyIf"],
  "entries": ["p_rec","p_all"],
  "mode": "P", "confirm": ["w_rmrec/n_rmrec"],
  "needs": {"p_rec": ["removeRecursivelyIf"], "p_all": ["removeRecursivelyIf"]},
  "rename_by_entry": {"p_rec": ["removeRecursivelyIf@removeRecursivelyIf","*@sLStat","*@sStat","*@sDirOpen","*@sDirGetNext","*@sDirClose","*@sRemove"],
                      "p_all": ["removeRecursivelyIf@removeRecursivelyIf","*@sLStat","*@sStat","*@sDirOpen","*@sDirGetNext","*@sDirClose","*@sRemove"]},
  "unwind": 3, "timeout": 200, "sat": "cadical",
  "state": ["open","end","have","kept","handled","asked","removed","yes"],
  "genset": {"StringView": "*(struct nb_sv *)&$x = nb_G_sub();"},
  "cands": ["nb_issub(&$p(StringView))", "$b == G.kept", "$b == !G.kept", "!G.kept || G.handled", "!G.open || !G.end"],
  "assumes": ["sLStat, sDirOpen, sDirGetNext, sDirClose and sRemove behave as proved in unit wrappers"],
  "entry_props": {"p_rec": ["C22", "C12"], "p_all": ["C22", "C12"]}
}
*/
//@PRE
struct nb_G { _Bool open, end, have, kept, handled, asked, removed, yes; };
struct nb_sv; struct nb_sv nb_G_sub(void);
//@MID
extern struct nb_G G; _Bool nb_issub(const StringView *);
struct nb_sv { const char *c; nb_u64 l; _Bool t; };
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
#define SV_SET(v, C, L, T) (*(struct nb_sv *)&(v) = (struct nb_sv){ (C), (L), (T) })
#define SV_CPY(v, w) (*(struct nb_sv *)&(v) = *(struct nb_sv *)&(w))
struct nb_G G;
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static StringView P; static char pc[1], sub[1]; static struct stat S; static _Bool X_dir, w_stat; static int token, dummy; static ShouldRemoveCallback *X_cb; static void *X_ud;
bool strIsEmpty(StringView v) { return v.length == 0; }
void strSet(StringView *a, StringView b) { SV_CPY(*a, b); }
struct nb_sv nb_G_sub(void) { struct nb_sv v; v.c = sub; v.l = nd_bool() ? 7 : 0; v.t = 1; return v; }
_Bool nb_issub(const StringView *v) { return v->content == sub && (v->length == 7 ? !G.end && G.have : v->length == 0 && G.end && !G.have); }
static _Bool isP(StringView p) { return p.content == P.content && p.length == P.length; }
static struct stat NBC_sLStat(StringView p) { OBL(isP(p) && !w_stat, "the path itself is examined"); MAYDIE; w_stat = 1; return S; }
static struct stat NBC_sStat(StringView p) { OBL(0, "symlinks are not followed"); return S; }
static DirIterator *NBC_sDirOpen(StringView p) { OBL(isP(p) && X_dir && w_stat && !G.open && !G.end, "only directories are searched"); MAYDIE; G.open = 1; return (DirIterator *)&dummy; }
static StringView NBC_sDirGetNext(DirIterator *d) { OBL(d == (DirIterator *)&dummy && G.open && !G.end, "open directory"); OBL(!G.have, "every entry is handled"); MAYDIE; StringView v; if(nd_bool()) { SV_SET(v, sub, 7, 1); G.have = 1; } else { SV_SET(v, sub, 0, 1); G.end = 1; } return v; }
static void NBC_sDirClose(DirIterator *d) { OBL(d == (DirIterator *)&dummy && G.open, "open directory"); MAYDIE; G.open = 0; }
static bool answer(StringView p, const struct stat *s, void *u)
{
  OBL(u == &token, "user data"); OBL(isP(p), "asked for the path itself"); OBL(s->st_mode == S.st_mode && s->st_size == S.st_size && s->st_ino == S.st_ino, "with its own information"); OBL(!G.asked && !G.open && G.end == X_dir && !G.have, "after everything below"); OBL(!G.kept, "not if something inside is kept");
  MAYDIE; G.asked = 1; G.yes = nd_bool(); return G.yes;
}
static bool NBC_removeRecursivelyIf(StringView p, ShouldRemoveCallback f, void *u)
{
  OBL(p.content == sub && p.length == 7 && G.have && G.open, "entry of the directory"); G.have = 0; G.handled = 1; MAYDIE;
  if(X_cb) OBL(f == X_cb && u == X_ud, "same condition"); else { struct stat s; OBL(f(p, &s, u), "everything is removed"); return 1; }
  _Bool r = nd_bool(); if(!r) G.kept = 1; return r;
}
static void NBC_sRemove(StringView p) { OBL(isP(p) && !G.removed && !G.open && G.end == X_dir, "only the path itself, after its content"); if(X_cb) OBL(G.asked && G.yes, "only if the condition holds"); MAYDIE; G.removed = 1; }
static void init(void) { SV_SET(P, pc, nd_range(1, 1ul << 40), nd_bool()); S.st_mode = nd_u32(); S.st_size = nd_u64(); S.st_ino = nd_u64(); X_dir = (S.st_mode & 0170000) == 0040000; w_stat = 0; G.open = G.end = G.have = G.kept = G.handled = G.asked = G.removed = G.yes = 0; X_ud = &token; }
void p_rec(void)
{
  init(); X_cb = answer;
#ifdef NB_HAVE_removeRecursivelyIf
  if(nd_bool()) sRemoveRecursivelyIf(P, answer, &token);
  else { bool r = removeRecursivelyIf(P, answer, &token); OBL(r == G.removed, "the result tells whether the path was removed"); }
#endif
  OBL(w_stat && G.end == X_dir && !G.open && !G.have, "everything below is handled"); OBL(G.asked == !G.kept, "the condition is asked for every entry"); OBL(G.removed == (G.asked && G.yes), "removed if and only if the condition holds");
  if(G.removed) { COVER("removed"); if(G.handled) COVER("with its content"); if(!X_dir) COVER("file"); } else if(G.kept) COVER("kept content"); else COVER("kept");
}
void p_all(void)
{
  init(); X_cb = 0;
#ifdef NB_HAVE_removeRecursivelyIf
  sRemoveRecursively(P);
#endif
  OBL(G.removed && G.end == X_dir && !G.open && !G.have, "removed with everything below"); COVER("removed"); if(G.handled) COVER("with its content");
}
