/*NB-UNIT
{ "src": "search-tree.c", "props": ["C14"],
  "targets": ["searchTreeParse"],
  "entries": ["n_parse"],
  "mode": "N", "direct": 1, "nsecs": 20, "ncount": 150000,
  "nlink": ["str.c","safe-math.c","string-table.c","third-party/SipHash/siphash.c"]
}
*/
//@POST
/* Random configuration texts against an independent reading of the grammar. */
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <regex.h>
#define NB_MAX_ALLOCATORS 4000
#define NB_MAX_ATTACH 64
static _Bool may_;
#define NB_ON_DIE OBL(0, "no other error")
//@include sv.h
static _Bool nb_may_die; static char exp_[700]; static unsigned exp_line; static char cfg[3000]; static unsigned cl;
/* the expected error: number of the line, and text which the message contains */
void die(const char *f, ...)
{
  char b[4000]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); OBL(exp_line || exp_[0], "only invalid configurations are rejected");
  if(exp_line) { char p[60]; int n = sprintf(p, "config: line %u:", exp_line); OBL(strncmp(b, p, n) == 0, "errors name the line"); } OBL(strstr(b, exp_) != 0, "errors describe the problem"); nb_native_cover("rejected"); NB_STOP("rejected"); __builtin_unreachable();
}
void dieErrno(const char *f, ...) { OBL(0, "no other error"); NB_STOP("die"); __builtin_unreachable(); }
//@include alloc.h
static nb_u64 seed_; static unsigned R(unsigned n) { static nb_u64 x; if(!seed_) { seed_ = 1; x = nd_u64() ^ (nd_u64() << 17) ^ (nd_u64() * 0x9E3779B97F4A7C15ul); if(!x) x = 88172645463325252ul; } x ^= x << 13; x ^= x >> 7; x ^= x << 17; nb_u64 v = x; v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ul; v ^= v >> 32; return v % n; }
int sRand(void) { return R(1u << 30); } void *sMalloc(size_t n) { OBL(n > 0, "size"); void *p = malloc(n); memset(p, 0xA5, n); return p; }
FileContent sGetFilesContent(CR_Region *r, StringView p) { FileContent c = { .content = 0, .size = 0 }; return c; }
static _Bool badrx; static unsigned rx_line;
const regex_t *sRegexCompile(CR_Region *r, StringView e, StringView f, size_t n)
{
  char b[4000]; OBL(strIsEqual(f, str("config")), "errors name the configuration"); OBL(e.is_terminated && e.content[e.length] == 0, "expression is terminated"); memcpy(b, e.content, e.length); b[e.length] = 0; regex_t *x = malloc(sizeof *x);
  if(regcomp(x, b, REG_EXTENDED | REG_NOSUB)) { OBL(badrx && exp_line == n, "errors name the line"); nb_native_cover("invalid expression"); NB_STOP("rejected"); } return x;
}
/* ---- generator ---- */
static void put(const char *s) { unsigned l = strlen(s); memcpy(cfg + cl, s, l); cl += l; }
static void line(void)
{
  static const char *const h[] = { "[copy]", "[mirror]", "[track]", "[ignore]", "[summarize]" }; static const char *const odd[] = { "[foo]", "[]", "[", "]", "[Copy]", "[copy] ", " [copy]", "[copy", "copy]", "a", "\r", "foo/bar", " /a", "[a]b", "[ab]", "\v", "\xEF\xBB\xBF", "[cop]y", "\xEF\xBB\xBF[copy]", "./a", "~", "#[copy]", "(", "[[:alpha:]", "a{2,1}" };
  static const char *const el[] = { "a", "b", "c", "aa", ".x", "...", "a b", "#", "[x]", " ", "a*", "^b$", "(", "." , "..", "a]", "\xff" };
  unsigned k = R(12);
  if(k < 3) put(h[R(R(2) ? 3 : 5)]); else if(k == 3) { static const char *const bl[] = { "", " ", "\t", " \t ", "# x", "#", "#/a", "" }; put(bl[R(8)]); } else if(k == 4 && R(3) == 0) put(odd[R(25)]);
  else { unsigned n = R(4); for(unsigned i = 0; i < n; i++) { put("/"); unsigned s = R(6) ? 0 : 1 + R(2); while(s--) put("/"); put(el[R(R(6) ? 5 : R(2) ? 13 : 17)]); } if(n == 0 || R(6) == 0) { unsigned s = 1 + R(3); while(s--) put("/"); } }
}
/* ---- reference ---- */
struct nd { char path[300]; unsigned plen, line, pline; int pol; _Bool own, seen; char name[300]; unsigned nlen; _Bool rx; int parent; };
static struct nd *N_; static unsigned nn; struct xp { const char *c; unsigned l, line; _Bool seen; }; static struct xp IG[200], SU[200]; static unsigned ni, ns;
static int find(const char *p, unsigned l) { for(unsigned i = 0; i < nn; i++) if(N_[i].plen == l && memcmp(N_[i].path, p, l) == 0) return i; return -1; }
static _Bool rxok(const char *p, unsigned l) { char b[4000]; memcpy(b, p, l); b[l] = 0; regex_t x; if(regcomp(&x, b, REG_EXTENDED | REG_NOSUB)) return 0; regfree(&x); return 1; }
static void err(unsigned l, const char *t, const char *s, unsigned n) { if(exp_line) return; exp_line = l; strcpy(exp_, t); char *e = exp_ + strlen(exp_); if(n > 500) n = 500; memcpy(e, s, n); e[n] = 0; if(t[0] == 0 && n == 0) exp_[0] = 0; }
/* defines all elements of a path; returns the last one */
static int walk(const char *p, unsigned l, unsigned ln)
{
  int cur = 0; unsigned i = 0;
  while(i < l) {
    unsigned s = i + 1, e = s; while(e < l && p[e] == '/') e++; while(e < l && p[e] != '/') e++; int k = find(p, e);
    if(k < 0) { if(nn == 400) NB_STOP("big"); k = nn++; struct nd *n = &N_[k]; memcpy(n->path, p, e); n->plen = e; n->line = ln; n->pol = 0; n->own = n->seen = 0; n->parent = cur; n->rx = p[s] == '/'; unsigned b = s + n->rx; n->nlen = e - b; memcpy(n->name, p + b, e - b); if(n->rx && !rxok(n->name, n->nlen)) { err(ln, "", "", 0); badrx = 1; return k; } }
    cur = k; i = e; }
  return cur;
}
static void ref(void)
{
  nn = 1; memset(&N_[0], 0, sizeof N_[0]); ni = ns = 0; exp_line = 0; exp_[0] = 0; badrx = 0; if(memchr(cfg, 0, cl)) { strcpy(exp_, "null-bytes"); return; }
  unsigned i = cl >= 3 && memcmp(cfg, "\xEF\xBB\xBF", 3) == 0 ? 3 : 0, ln = 1; int pol = 0;
  for(; i < cl && !exp_line; ln++) {
    const char *s = cfg + i; unsigned l = 0; while(i + l < cl && s[l] != '\n') l++; i += l + 1; _Bool blank = 1; for(unsigned k = 0; k < l; k++) blank &= s[k] == ' ' || s[k] == '\t'; if(blank || *s == '#') continue;
#define H(t) (l == strlen(t) && memcmp(s, t, l) == 0)
    int h = H("[copy]") ? BPOL_copy : H("[mirror]") ? BPOL_mirror : H("[track]") ? BPOL_track : H("[ignore]") ? BPOL_ignore : H("[summarize]") ? BPOL_summarize : 0;
    if(h) { pol = h; continue; } if(s[0] == '[' && s[l - 1] == ']') { err(ln, "invalid policy: \"", s + 1, l - 2); strcat(exp_, "\""); continue; }
    if(!pol) { err(ln, "pattern without policy: \"", s, l); strcat(exp_, "\""); continue; }
    if(pol == BPOL_ignore || pol == BPOL_summarize) { if(!rxok(s, l)) { err(ln, "", "", 0); badrx = 1; continue; } struct xp *x = pol == BPOL_ignore ? &IG[ni++] : &SU[ns++]; x->c = s; x->l = l; x->line = ln; x->seen = 0; continue; }
    if(s[0] != '/') { err(ln, "invalid path: \"", s, l); strcat(exp_, "\""); continue; }
    _Bool dot = 0; for(unsigned k = 0; k < l; ) { unsigned b = k + 1, e = b; while(e < l && s[e] == '/') e++; while(e < l && s[e] != '/') e++; if((e - b == 1 && s[b] == '.') || (e - b == 2 && s[b] == '.' && s[b + 1] == '.')) dot = 1; k = e; }
    if(dot) { err(ln, "contains \".\" or \"..\": \"", s, l); strcat(exp_, "\""); continue; }
    unsigned pl = l; while(pl && s[pl - 1] == '/') pl--; int old = find(s, pl);
    if(old >= 0 && N_[old].own) { char t[60]; sprintf(t, "redefining %sline %u: \"", N_[old].pol == pol ? "" : "policy of ", N_[old].pline); err(ln, t, s, l); continue; }
    int k = walk(s, pl, ln); N_[k].own = 1; N_[k].pol = pol; N_[k].pline = ln; }
}
static unsigned seen; static SearchNode *root_;
static void cmp(SearchNode *n, int k)
{
  struct nd *e = &N_[k]; OBL(!e->seen, "each element once"); e->seen = 1; seen++; int p = k; while(p && !N_[p].own) p = N_[p].parent; int pol = N_[p].own ? N_[p].pol : 0;
  OBL((int)n->policy == pol, "policy of the section or of the nearest parent"); OBL(n->policy_inherited == (pol && !e->own), "inherited policies are marked"); if(e->own) OBL(n->policy_line_nr == e->pline, "line of the definition"); OBL(n->line_nr == e->line, "line of the first appearance"); OBL(n->search_match == SRT_none, "nothing has matched"); OBL(n->ignore_expressions == root_->ignore_expressions, "shared expressions");
  if(k) { OBL(n->name.length == e->nlen && memcmp(n->name.content, e->name, e->nlen) == 0, "name of the element"); OBL((n->regex != 0) == e->rx, "expressions after an extra slash"); } _Bool rx = 0;
  for(SearchNode *s = n->subnodes; s; s = s->next) { char q[400]; unsigned l = e->plen; memcpy(q, e->path, l); q[l++] = '/'; if(s->regex) { q[l++] = '/'; rx = 1; } memcpy(q + l, s->name.content, s->name.length); l += s->name.length; int c = find(q, l); OBL(c > 0, "defined element"); cmp(s, c); }
  OBL(n->subnodes_contain_regex == rx, "directories with expressions are marked");
}
static void exprs(RegexList *l, struct xp *x, unsigned n) { unsigned k = 0; for(; l; l = l->next, k++) { unsigned i = 0; while(i < n && !(x[i].line == l->line_nr && x[i].l == l->expression.length && memcmp(x[i].c, l->expression.content, x[i].l) == 0)) i++; OBL(i < n && !x[i].seen, "expression of the configuration"); x[i].seen = 1; OBL(l->regex && !l->has_matched, "fresh expression"); } OBL(k == n, "every expression is kept"); }
void n_parse(void)
{
  N_ = malloc(400 * sizeof *N_); cl = 0; if(R(8) == 0) put("\xEF\xBB\xBF"); unsigned n = R(10); if(R(3)) put("[copy]\n");
  while(n--) { line(); if(n || R(2)) put(R(30) ? "\n" : R(2) ? "\n\n" : "\r\n"); } if(R(40) == 0 && cl) cfg[R(cl)] = R(256); if(R(60) == 0 && cl) cl = R(cl);
  ref(); char *t = malloc(cl + 1); memcpy(t, cfg, cl); StringView v; SV_SET(v, t, cl, 0); root_ = searchTreeParse(CR_RegionNew(), v); OBL(!exp_line && !exp_[0], "invalid configurations are rejected"); memset(t, '?', cl);
  seen = 0; OBL(root_->next == 0 && root_->regex == 0 && strIsEqual(root_->name, str("/")), "root directory"); cmp(root_, 0); OBL(seen == nn, "every element is kept"); exprs(*root_->ignore_expressions, IG, ni); exprs(*root_->summarize_expressions, SU, ns);
}
