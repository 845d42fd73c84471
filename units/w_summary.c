/*NB-UNIT
{ "src": "informations.c", "props": ["C20", "C24"],
  "targets": ["printMetadataChanges","containsChanges"],
  "entries": ["n_list"], "mode": "N", "direct": 1, "nsecs": 15, "ncount": 60000,
  "nlink": ["str.c","safe-math.c","colors.c"]
}
*/
//@POST
/* The printed lines and the totals for random trees with arbitrary hints,
   against an independent listing. */
#include <string.h>
#include <ctype.h>
#include <unistd.h>
extern FILE *open_memstream(char **, size_t *);
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
//@include sv.h
bool sIsTTY(FILE *f) { return 0; }
bool sRegexIsMatching(const regex_t *r, StringView s) { unsigned k = (const char *)r - (const char *)16, h = 5381 + k * 77; for(nb_u64 i = 0; i < s.length; i++) h = h * 33 + s.content[i]; return (h >> 3) % 3 == 0; }
static unsigned R(unsigned n) { nb_u64 v = nd_u64(); v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ul; v ^= v >> 32; return v % n; }
#define NN 40
static PathNode T[NN]; static PathHistory H[NN * 2]; static Backup bk; static unsigned nn; static RegexList RX[2];
static PathNode *tree(StringView parent, int depth)
{
  unsigned k = R(depth ? 4 : 5); if(depth > 3) k = 0; PathNode *first = 0, **at = &first;
  for(unsigned j = 0; j < k && nn < NN; j++) {
    unsigned me = nn++; PathNode *n = &T[me]; *at = n; at = &n->next; n->next = 0; char *c = malloc(parent.length + 3); memcpy(c, parent.content, parent.length); c[parent.length] = '/'; c[parent.length + 1] = 'a' + j; c[parent.length + 2] = 0;
    SV_SET(n->path, c, parent.length + 2, 1);
    unsigned t = R(3) ? PST_directory : R(2) ? PST_regular_file : PST_symlink; PathHistory *h = &H[2 * me], *e = h; e->backup = &bk; e->next = 0; n->history = h;
    n->policy = R(t == PST_directory ? 4 : 3) ; if(t != PST_directory && n->policy == BPOL_none) n->policy = BPOL_copy;
    static const unsigned pl[] = { BH_none, BH_unchanged, BH_added, BH_removed, BH_not_part_of_repository };
    unsigned k2 = R(9); if(k2 < 5) n->hint = pl[k2];
    else if(k2 == 5) n->hint = t == PST_directory ? R(2) ? BH_regular_to_directory : R(2) ? BH_symlink_to_directory : BH_other_to_directory : t == PST_symlink ? R(2) ? BH_directory_to_symlink : R(2) ? BH_regular_to_symlink : BH_other_to_symlink : R(2) ? BH_directory_to_regular : R(2) ? BH_symlink_to_regular : BH_other_to_regular;
    else { n->hint = (R(3) == 0 ? BH_owner_changed : 0) | (t != PST_symlink && R(3) == 0 ? BH_permissions_changed : 0) | (t != PST_symlink && R(3) == 0 ? BH_timestamp_changed : 0) | (t != PST_directory && R(3) == 0 ? BH_content_changed | (t == PST_regular_file && R(2) ? BH_fresh_hash : 0) : 0); if(n->hint == 0) n->hint = BH_unchanged; }
    if(R(5) == 0) n->hint |= BH_policy_changed | (R(2) ? BH_loses_history : 0);
    if(R(6) == 0) { e = &H[2 * me + 1]; h->next = e; e->backup = &bk; e->next = 0; h->state.type = R(4) && n->hint == BH_removed ? PST_non_existing : t; if(h->state.type != PST_non_existing) h = h; }
    for(PathHistory *p = h; p; p = p->next) { if(p->state.type == PST_non_existing) continue; p->state.type = t; if(t == PST_symlink) SV_SET(p->state.metadata.symlink_target, "tgt", 3, 1); else if(t == PST_regular_file) p->state.metadata.file_info.size = R(4) ? R(5000) : 1ul << R(40); }
    if(h->state.type == PST_non_existing) { e->state.type = t; if(t == PST_symlink) SV_SET(e->state.metadata.symlink_target, "tgt", 3, 1); else if(t == PST_regular_file) e->state.metadata.file_info.size = R(5000); }
    n->subnodes = tree(n->path, depth + 1); }
  return first;
}
/* ---- reference ---- */
struct tot { nb_u64 c[4], s[4]; _Bool any, ts; };
static char exp_[NN][80]; static unsigned ne; static nb_u64 en[NN]; static RegexList *rxl;
static PathState *es(const PathNode *n) { return n->history->state.type == PST_non_existing && n->history->next ? &n->history->next->state : &n->history->state; }
static unsigned tc(unsigned h) { return h >= BH_regular_to_symlink && h <= BH_other_to_directory; }
enum { ATTR = BH_owner_changed | BH_permissions_changed | BH_timestamp_changed };
static _Bool hitR[2]; static _Bool rx(const PathNode *n, RegexList *l) { for(; l; l = l->next) if(sRegexIsMatching(l->regex, n->path)) { hitR[l - RX] = 1; return 1; } return 0; }
static struct tot ref(const PathNode *l, RegexList *rl, _Bool print)
{
  struct tot T = { { 0 } };
  for(const PathNode *n = l; n; n = n->next) {
    unsigned h = n->hint & 0x1FF; _Bool pol = (n->hint & ~0x1FF) != 0, chg = n->hint > BH_unchanged; _Bool impl = n->policy == BPOL_none && (n->hint == BH_added || (n->hint && (n->hint & ~ATTR) == 0));
    _Bool sum = n->policy != BPOL_none && es(n)->type == PST_directory && rx(n, rl); unsigned me = ne; _Bool slot = print && (sum || (chg && !impl)); if(slot) ne++;
    _Bool sub = print && !sum && (!(chg && !impl) || (h & (ATTR | BH_content_changed | BH_fresh_hash)) != 0);
    struct tot S = ref(n->subnodes, sum ? 0 : rl, sub); nb_u64 sz = es(n)->type == PST_regular_file ? es(n)->metadata.file_info.size : 0;
    _Bool listed = slot && (sum ? chg || S.any : !(n->hint == BH_timestamp_changed && S.ts)); _Bool content = S.c[0] || S.c[1] || S.c[2] || S.c[3];
    if(slot && !listed) { for(unsigned i = me; i + 1 < ne; i++) { memcpy(exp_[i], exp_[i + 1], 80); en[i] = en[i + 1]; } ne--; }
    if(listed) {
      const char *p = h == BH_added ? "++ " : h == BH_removed ? "-- " : h == BH_not_part_of_repository ? n->policy == BPOL_mirror ? "xx " : "?? " : tc(h) ? "<> " : h & BH_content_changed ? "!! " : sum && content ? "!! " : h ? "@@ " : ":: ";
      sprintf(exp_[me], "%s%s%.*s%s", p, es(n)->type == PST_symlink ? "^" : "", (int)n->path.length, n->path.content, es(n)->type == PST_directory ? "/" : "");
      en[me] = ~0ul; if(es(n)->type == PST_directory) { if(h == BH_added || h == BH_regular_to_directory || h == BH_symlink_to_directory) en[me] = S.c[0]; else if(h == BH_removed) en[me] = S.c[1]; else if(h == BH_not_part_of_repository) en[me] = S.c[2]; } }
    for(int i = 0; i < 4; i++) { T.c[i] += S.c[i]; T.s[i] += S.s[i]; }
    T.any |= S.any;
    int k = h == BH_added ? 0 : h == BH_removed ? 1 : h == BH_not_part_of_repository ? 2 : !tc(h) && (h & BH_content_changed) ? 3 : -1;
    if(k >= 0) { T.c[k]++; T.s[k] += sz; T.any = 1; T.ts |= k != 2 || (n->policy == BPOL_mirror && !(n->hint & BH_policy_changed)); }
    else if(chg && !impl) { T.any = 1; T.ts |= tc(h); } }
  return T;
}
void n_list(void)
{
  nn = ne = 0; memset(T, 0, sizeof T); memset(H, 0, sizeof H); Metadata M; memset(&M, 0, sizeof M); M.paths = tree(str(""), 0); unsigned nr = R(3); rxl = 0; for(unsigned i = 0; i < nr; i++) { RX[i].regex = (regex_t *)(16ul + i); RX[i].next = rxl; RX[i].has_matched = 0; rxl = &RX[i]; }
  hitR[0] = hitR[1] = 0; struct tot E = ref(M.paths, rxl, 1);
  char *buf = 0; size_t len = 0; FILE *old = stdout; stdout = open_memstream(&buf, &len); ChangeSummary s = printMetadataChanges(&M, rxl); fclose(stdout); stdout = old;
  OBL(s.new_items.affected_items_count == E.c[0] && s.new_items.affected_items_total_size == E.s[0], "total of new paths"); OBL(s.removed_items.affected_items_count == E.c[1] && s.removed_items.affected_items_total_size == E.s[1], "total of removed paths");
  OBL(s.lost_items.affected_items_count == E.c[2] && s.lost_items.affected_items_total_size == E.s[2], "total of lost paths"); OBL(s.changed_items.affected_items_count == E.c[3] && s.changed_items.affected_items_total_size == E.s[3], "total of changed paths");
  OBL(containsChanges(&s) == E.any, "changes are claimed exactly if there are some");
  for(unsigned i = 0; i < nr; i++) OBL(RX[i].has_matched == hitR[i], "exactly the matched summarize expressions are noted");
  unsigned k = 0;
  for(char *l = buf; l && *l; ) {
    char *e = strchr(l, '\n'); OBL(e != 0, "complete lines"); *e = 0; OBL(k < ne, "no further path is listed"); unsigned q = 0; size_t n = 0;
    for(; q < ne; q++) { n = strlen(exp_[q]); if(n && strncmp(l, exp_[q], n) == 0 && (l[n] == 0 || l[n] == ' ' || l[n] == '.')) break; } OBL(q < ne, "listed path"); exp_[q][0] = 0; /* each path once */
    if(en[q] != ~0ul) { char t[60]; sprintf(t, "%s%lu item%s", en[q] ? *l == '+' || *l == '<' ? "+" : "-" : "", en[q], en[q] == 1 ? "" : "s"); OBL(strstr(l + n, t) != 0, "number of paths below"); }
    k++; l = e + 1; }
  OBL(k == ne, "every change is listed");
}
