/*NB-UNIT
{ "src": "informations.c", "props": ["C24"],
  "targets": ["printSearchTreeInfos","warnNodeMatches"],
  "entries": ["n_warn"], "mode": "N", "direct": 1, "nsecs": 12, "ncount": 60000,
  "nlink": ["str.c","safe-math.c","colors.c"]
}
*/
//@POST
/* The warnings for random configurations with arbitrary marks, against an
   independent listing (order of the lines is not compared). */
#include <string.h>
extern FILE *open_memstream(char **, size_t *);
#define NB_ON_DIE OBL(0, "no error exit")
//@include die.h
//@include sv.h
bool sIsTTY(FILE *f) { return 0; }
bool sRegexIsMatching(const regex_t *r, StringView s) { return 0; }
static unsigned R(unsigned n) { nb_u64 v = nd_u64(); v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ul; v ^= v >> 32; return v % n; }
#define NN 60
static SearchNode T[NN]; static RegexList X[8]; static unsigned nn, nx, ne; static char exp_[NN + 8][120]; static char nmb[NN + 8][12];
static void name(void *v, unsigned i) { unsigned l = 1 + R(9); for(unsigned k = 0; k < l; k++) nmb[i][k] = "abcxyz.%$^*d"[R(12)]; nmb[i][l] = R(2) ? 0 : 'Q'; SV_SET(*(StringView *)v, nmb[i], l, nmb[i][l] == 0); }
static SearchNode *tree(unsigned depth)
{
  unsigned n = R(depth ? 4 : 6); SearchNode *l = 0;
  for(unsigned i = 0; i < n && nn < NN && depth < 5; i++) {
    SearchNode *s = &T[nn]; name(&s->name, nn); nn++; s->line_nr = R(4) ? R(500) : nd_u64(); s->regex = R(3) ? 0 : (regex_t *)16; static const unsigned m[] = { SRT_directory | SRT_symlink, SRT_none, SRT_directory, SRT_directory, SRT_directory | SRT_regular_file, SRT_directory | SRT_other, SRT_regular_file, SRT_other, SRT_symlink | SRT_regular_file };
    s->search_match = m[R(9)]; s->policy = R(4); s->next = l; l = s; s->subnodes = R(2) ? tree(depth + 1) : 0; }
  return l;
}
static void ref(const SearchNode *p)
{
  for(const SearchNode *n = p->subnodes; n; n = n->next) {
    const char *t = n->regex ? "regex" : "string"; int l = (int)n->name.length; const char *c = n->name.content; unsigned m = n->search_match;
    if(!m) { sprintf(exp_[ne++], "config: line %lu: %s never matched a %s: \"%.*s\"", n->line_nr, t, n->subnodes ? "directory" : "file", l, c); continue; }
    if(!n->subnodes) continue;
    if(!(m & SRT_directory)) { sprintf(exp_[ne++], "config: line %lu: %s matches, but not a directory: \"%.*s\"", n->line_nr, t, l, c); continue; }
    if(m != SRT_directory) sprintf(exp_[ne++], "config: line %lu: %s matches not only directories: \"%.*s\"", n->line_nr, t, l, c);
    ref(n); }
}
static RegexList *exprs(const char *t) { unsigned n = R(4); RegexList *l = 0; for(unsigned i = 0; i < n; i++) { RegexList *r = &X[nx]; name(&r->expression, NN + nx); nx++; r->line_nr = R(900); r->has_matched = R(2); r->next = l; l = r; if(!r->has_matched) sprintf(exp_[ne++], "config: line %lu: regex never matched a %s: \"%.*s\"", r->line_nr, t, (int)r->expression.length, r->expression.content); } return l; }
void n_warn(void)
{
  nn = nx = ne = 0; memset(T, 0, sizeof T); memset(X, 0, sizeof X); SearchNode root; memset(&root, 0, sizeof root); SV_SET(root.name, "/", 1, 1); root.subnodes = tree(0); ref(&root); RegexList *a = exprs("path"), *b = exprs("directory"); root.ignore_expressions = &a; root.summarize_expressions = &b;
  _Bool m = nn && R(8) == 0; char *buf = 0; size_t len = 0; FILE *old = stderr, *oo = stdout; char *ob = 0; size_t ol = 0; stdout = open_memstream(&ob, &ol); stderr = open_memstream(&buf, &len);
  if(m) { ne = 1; sprintf(exp_[0], "config: line %lu: %s \"%.*s\" matches \"%.*s\"", T[0].line_nr, T[0].regex ? "regex" : "string", (int)T[0].name.length, T[0].name.content, (int)T[nn - 1].name.length, T[nn - 1].name.content); warnNodeMatches(&T[0], T[nn - 1].name); }
  else printSearchTreeInfos(&root);
  fclose(stderr); fclose(stdout); stderr = old; stdout = oo; OBL(ol == 0, "warnings go to the standard error output"); free(ob);
  unsigned k = 0; for(char *l = buf; l && *l; ) { char *e = strchr(l, '\n'); OBL(e != 0, "complete lines"); *e = 0; unsigned q = 0; while(q < ne && strcmp(exp_[q], l) != 0) q++; OBL(q < ne, "only expected warnings"); exp_[q][0] = 0; k++; l = e + 1; }
  OBL(k == ne, "every entry without a proper match is reported"); free(buf);
}
