/*NB-UNIT
{ "src": "safe-wrappers.c", "props": ["C22"],
  "targets": ["sRemoveRecursively","sRemoveRecursivelyIf"],
  "entries": ["n_rmrec"], "mode": "N", "nsecs": 15, "ncount": 60000,
  "rename_by_entry": {"n_rmrec": ["*@sLStat","*@sStat","*@sDirOpen","*@sDirGetNext","*@sDirClose","*@sRemove"]},
  "nlink": ["str.c","safe-math.c"]
}
*/
//@POST
/* A small in-memory tree with symlinks; nothing real is ever touched. */
#include <string.h>
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
int sprintf(char *, const char *, ...); char *strdup(const char *); char *strrchr(const char *, int);
static unsigned R(unsigned n) { nb_u64 v = nd_u64(); v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ul; v ^= v >> 32; return v % n; }
#define NN 40
static struct n { char p[80]; _Bool used, gone, kept, asked; mode_t m; nb_u64 sz; char t[80]; } T[NN]; static unsigned nn; static int token; static unsigned seq, at[NN];
static struct n *raw(const char *p) { for(unsigned i = 0; i < nn; i++) if(T[i].used && !T[i].gone && strcmp(T[i].p, p) == 0) return &T[i]; return 0; }
static struct n *get(const char *p, _Bool follow, int d)
{
  char cur[200] = "", q[200]; if(d > 6) return 0; strcpy(q, p); const char *s = q;
  while(*s) { while(*s == '/') s++; if(!*s) break; const char *e = s; while(*e && *e != '/') e++; unsigned l = strlen(cur); cur[l] = '/'; memcpy(cur + l + 1, s, e - s); cur[l + 1 + (e - s)] = 0; struct n *x = raw(cur); if(!x) return 0;
    if((x->m & 0170000) == 0120000 && (*e || follow)) { char t[300]; strcpy(t, x->t); strcat(t, e); return get(t, follow, d + 1); } s = e; if(*e && (x->m & 0170000) != 0040000) return 0; if(!*e) return x; }
  return 0;
}
static char nb_[300]; static const char *nm(StringView v) { OBL(!(v.is_terminated && v.content[v.length]), "terminated"); memcpy(nb_, v.content, v.length); nb_[v.length] = 0; return nb_; }
static struct stat st(struct n *x) { OBL(x != 0, "existing path"); struct stat s; memset(&s, 0, sizeof s); s.st_mode = x->m; s.st_size = x->sz; s.st_ino = x - T + 1; return s; }
static struct stat NBC_sLStat(StringView p) { return st(get(nm(p), 0, 0)); }
static struct stat NBC_sStat(StringView p) { struct n *x = get(nm(p), 1, 0); if(!x) NB_STOP("dangling"); return st(x); }
struct it { char d[200]; unsigned i, n; char *e[NN], *last; _Bool closed; }; static int open_;
static DirIterator *NBC_sDirOpen(StringView p) { struct n *x = get(nm(p), 1, 0); OBL(x && (x->m & 0170000) == 0040000, "directory"); struct it *d = malloc(sizeof *d); memset(d, 0, sizeof *d); strcpy(d->d, nm(p)); unsigned l = strlen(x->p), o = R(NN); for(unsigned k = 0; k < nn; k++) { struct n *y = &T[(k + o) % nn]; if(y->used && !y->gone && strncmp(y->p, x->p, l) == 0 && y->p[l] == '/' && !strchr(y->p + l + 1, '/')) d->e[d->n++] = strdup(y->p + l + 1); } open_++; return (DirIterator *)d; }
static StringView NBC_sDirGetNext(DirIterator *i) { struct it *d = (struct it *)i; OBL(!d->closed, "open"); if(d->last) memset(d->last, '?', strlen(d->last)); if(d->i == d->n) { d->last = 0; return str(""); } d->last = malloc(300); sprintf(d->last, "%s/%s", d->d, d->e[d->i++]); return str(d->last); }
static void NBC_sDirClose(DirIterator *i) { struct it *d = (struct it *)i; OBL(!d->closed, "open"); d->closed = 1; open_--; }
static _Bool haschild(struct n *x) { unsigned l = strlen(x->p); for(unsigned i = 0; i < nn; i++) if(T[i].used && !T[i].gone && strncmp(T[i].p, x->p, l) == 0 && T[i].p[l] == '/') return 1; return 0; }
static void NBC_sRemove(StringView p) { struct n *x = get(nm(p), 0, 0); OBL(x != 0, "existing path is removed"); OBL(!haschild(x), "children are removed before their directory"); x->gone = 1; at[x - T] = ++seq; }
static char root[80]; static unsigned rl;
static bool cond(StringView p, const struct stat *s, void *u)
{
  OBL(u == &token, "user data"); struct n *x = get(nm(p), 0, 0); OBL(x && strcmp(x->p, nb_) == 0, "own path"); OBL(s->st_ino == x - T + 1 && s->st_mode == x->m && s->st_size == x->sz, "own information"); OBL(!x->asked, "asked once"); x->asked = 1; OBL(!haschild(x), "asked only when nothing inside was kept"); return !x->kept;
}
static _Bool under(struct n *x) { return strncmp(x->p, root, rl) == 0 && (x->p[rl] == 0 || x->p[rl] == '/'); }
void n_rmrec(void)
{
  static const char *const names[] = { "a", "b", "..c", ".d", "e e", "aa" }; nn = 0; memset(T, 0, sizeof T);
  strcpy(T[nn].p, "/w"); T[nn].used = 1; T[nn++].m = 0040755; unsigned n = R(25) + 1;
  while(n--) { unsigned k = R(nn); if((T[k].m & 0170000) != 0040000 || strlen(T[k].p) > 40) continue; char p[80]; sprintf(p, "%s/%s", T[k].p, names[R(6)]); if(raw(p)) continue; struct n *x = &T[nn++]; strcpy(x->p, p); x->used = 1; x->sz = R(100); unsigned t = R(8); x->m = t < 3 ? 0040755 : t < 5 ? 0120777 : t == 5 ? 0010600 : 0100644; x->kept = R(5) == 0; if(t == 3 || t == 4) strcpy(x->t, R(4) ? T[R(nn)].p : "/nowhere"); }
  strcpy(root, T[R(nn)].p); rl = strlen(root); _Bool all = R(3) == 0; if(all) for(unsigned i = 0; i < nn; i++) T[i].kept = 0;
  char buf[100]; strcpy(buf, root); buf[rl] = R(2) ? 0 : 'Z'; buf[rl + 1] = 0; StringView v = buf[rl] ? strUnterminated(buf, rl) : str(buf);
  if(all) sRemoveRecursively(v); else sRemoveRecursivelyIf(v, cond, &token);
  OBL(open_ == 0, "directories are closed");
  for(unsigned i = 0; i < nn; i++) {
    struct n *x = &T[i]; if(!under(x)) { OBL(!x->gone, "nothing outside is touched"); continue; }
    _Bool inner = 0; unsigned l = strlen(x->p); for(unsigned j = 0; j < nn; j++) if(strncmp(T[j].p, x->p, l) == 0 && T[j].p[l] == '/' && T[j].kept) inner = 1;
    OBL(x->gone == !(x->kept || inner), "exactly the entries are removed for which the condition holds"); if(!all && !inner) OBL(x->asked, "asked for every entry"); }
}
