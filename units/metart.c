/*NB-UNIT
{ "src": "metadata.c", "props": ["C01","C02"],
  "targets": ["metadataLoad","metadataWrite"],
  "entries": ["n_roundtrip","n_load"],
  "mode": "N", "asan": 1, "nsecs": 15, "ncount": 30000,
  "link": ["str.c", "safe-math.c"]
}
*/
//@POST
/* Search for failing inputs through the public interface (supplements the
   contracts of units metaread and metawrite; counted as samples only). */
#define NB_ON_DIE if(nb_ref_rejects) { NB_STOP("rejected"); } OBL(nb_may_die, "well-formed metadata rejected")
static _Bool nb_ref_rejects;
//@include die.h
//@include sv.h
#define NB_ALLOC_DIE (1ul << 22)
//@include alloc.h
#include <string.h>
static nb_u8 buf[1 << 16]; static nb_u64 blen; static _Bool w_closed;
static struct RepoWriter { int x; } nb_writer;
RepoWriter *repoWriterOpenRaw(StringView a, StringView b, StringView c, StringView d) { blen = 0; w_closed = 0; return &nb_writer; }
void repoWriterWrite(const void *d, size_t n, RepoWriter *w) { OBL(!w_closed && blen + n < sizeof buf, "write"); for(nb_u64 i = 0; i < n; i++) buf[blen++] = ((const nb_u8 *)d)[i]; }
void repoWriterClose(RepoWriter *w) { w_closed = 1; }
FileContent sGetFilesContent(CR_Region *r, StringView p) { FileContent f = { .content = malloc(blen + 1), .size = blen }; for(nb_u64 i = 0; i < blen; i++) f.content[i] = buf[i]; return f; }
/* table stand-in */
static struct { StringView k; void *d; } tab[64]; static unsigned ntab;
StringTable *strTableNew(CR_Region *r) { ntab = 0; return (StringTable *)tab; }
void strTableMap(StringTable *t, StringView k, void *d) { OBL(t == (StringTable *)tab && ntab < 64, "table"); SV_CPY(tab[ntab].k, k); tab[ntab++].d = d; }
static _Bool mapped(PathNode *n) { unsigned c = 0; for(unsigned i = 0; i < ntab; i++) if(tab[i].d == n && strIsEqual(tab[i].k, n->path)) c++; return c == 1; }
/* random metadata */
static unsigned R(unsigned n) { nb_u64 v = nd_u64(); v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ul; v ^= v >> 32; return v % n; }
static nb_u64 num(void) { return nd_u64(); }
static _Bool wild; /* build malformed metadata now and then */
#define W(n) (wild && R(n) == 0)
static Metadata M; static Backup bk[4]; static PathNode nodes[24]; static unsigned nn; static PathHistory hs[800]; static unsigned nh; static nb_u64 cnt_paths;
static _Bool long_history;
static PathHistory *history(unsigned min)
{
  unsigned k = min + R(3); if(long_history && nh < 20) { k += 250 + R(20); long_history = 0; } PathHistory *first = 0, **at = &first;
  while(k--) {
    PathHistory *p = &hs[nh++]; *at = p; at = &p->next; p->next = 0;
    unsigned b = R(M.backup_history_length + 1); p->backup = b ? &bk[b - 1] : &M.current_backup; p->backup->ref_count++;
    p->state.type = W(30) ? 4 + R(9) : R(4); p->state.uid = num(); p->state.gid = num();
    if(p->state.type == PST_symlink) { unsigned l = R(6); char *c = malloc(l + 1); for(unsigned i = 0; i < l; i++) c[i] = 1 + R(255); if(l && W(8)) c[R(l)] = 0; c[l] = 0; SV_SET(p->state.metadata.symlink_target, c, l, 1); }
    else if(p->state.type == PST_regular_file) { RegularFileInfo *f = &p->state.metadata.file_info; f->permission_bits = num(); f->modification_time = num(); f->size = R(2) ? R(24) : num(); for(int i = 0; i < 20; i++) f->hash[i] = R(256); f->slot = R(256); }
    else { p->state.metadata.directory_info.permission_bits = num(); p->state.metadata.directory_info.modification_time = num(); } }
  return first;
}
static PathNode *tree(StringView parent, unsigned depth)
{
  unsigned k = R(depth == 0 ? 4 : 3); if(depth > 2) k = 0;
  PathNode *first = 0, **at = &first;
  for(unsigned j = 0; j < k && nn < 20; j++) {
    PathNode *n = &nodes[nn++]; *at = n; at = &n->next; n->next = 0;
    unsigned l = 1 + R(4); char *c = malloc(parent.length + l + 2); memcpy(c, parent.content, parent.length); c[parent.length] = '/';
    for(unsigned i = 0; i < l; i++) { nb_u8 x = R(256); c[parent.length + 1 + i] = x == 0 || x == '/' || x == '.' ? 'a' : x; } c[parent.length + 1] = 'a' + j; c[parent.length + 1 + l] = 0;
    SV_SET(n->path, c, parent.length + 1 + l, 1);
    n->hint = R(5) == 0 ? BH_not_part_of_repository | (R(2) ? BH_policy_changed : 0) : R(2) ? BH_unchanged : BH_none;
    n->policy = W(20) ? 4 + R(252) : R(4); n->history = W(20) ? 0 : history(1);
    if(W(10)) c[parent.length + 1 + R(l)] = R(2) ? '/' : 0; if(W(20)) { c[parent.length + 1] = '.'; if(l > 1 && R(2)) { c[parent.length + 2] = '.'; l = 2; } else l = 1; SV_SET(n->path, c, parent.length + 1 + l, 1); } n->subnodes = tree(n->path, depth + 1); }
  return first;
}
static void build(void)
{
  nn = nh = 0; long_history = R(40) == 0; M.r = &nb_global_region; M.backup_history_length = R(5); M.backup_history = M.backup_history_length ? bk : 0;
  M.current_backup.id = 0; M.current_backup.ref_count = 0; M.current_backup.completion_time = num();
  for(unsigned i = 0; i < 4; i++) { bk[i].id = num(); bk[i].ref_count = 0; bk[i].completion_time = num(); }
  M.config_history = R(3) ? history(0) : 0; M.paths = tree(str(""), 0); M.total_path_count = num();
}
static nb_u64 rank(Backup *b)
{
  if(b == &M.current_backup) return 0;
  nb_u64 r = M.current_backup.ref_count > 0; for(Backup *x = bk; x != b; x++) r += x->ref_count > 0; return r;
}
static void same_hist(PathHistory *a, PathHistory *b, Metadata *m)
{
  for(; a; a = a->next, b = b->next) {
    OBL(b != 0, "all states survive"); OBL(b->backup == &m->backup_history[rank(a->backup)], "backup of the state survives");
    PathState *x = &a->state, *y = &b->state; OBL(x->type == y->type, "type survives");
    if(x->type == PST_non_existing) continue;
    OBL(x->uid == y->uid && x->gid == y->gid, "owner survives");
    if(x->type == PST_symlink) OBL(strIsEqual(x->metadata.symlink_target, y->metadata.symlink_target), "target survives");
    if(x->type == PST_directory) OBL(x->metadata.directory_info.permission_bits == y->metadata.directory_info.permission_bits && x->metadata.directory_info.modification_time == y->metadata.directory_info.modification_time, "directory survives");
    if(x->type == PST_regular_file) { RegularFileInfo *f = &x->metadata.file_info, *g = &y->metadata.file_info;
      OBL(f->permission_bits == g->permission_bits && f->modification_time == g->modification_time && f->size == g->size, "file survives");
      OBL(memcmp(f->hash, g->hash, f->size > 20 ? 20 : f->size) == 0 && (f->size <= 20 || f->slot == g->slot), "hash survives"); } }
  OBL(b == 0, "no additional states");
}
static void same_nodes(PathNode *a, PathNode *b, Metadata *m)
{
  unsigned na = 0, nb = 0; for(PathNode *x = a; x; x = x->next) na += backupHintNoPol(x->hint) != BH_not_part_of_repository; for(PathNode *x = b; x; x = x->next) nb++;
  OBL(na == nb, "all paths survive, wiped ones don't");
  for(; a; a = a->next) { if(backupHintNoPol(a->hint) == BH_not_part_of_repository) continue;
    PathNode *y = b; while(y && !strIsEqual(a->path, y->path)) y = y->next;
    OBL(y != 0, "path survives"); OBL(y->policy == a->policy && y->hint == BH_none && mapped(y), "policy survives");
    same_hist(a->history, y->history, m); same_nodes(a->subnodes, y->subnodes, m); }
}
void n_roundtrip(void)
{
  build();
  metadataWrite(&M, str("r"), str("t"), str("m"));
  OBL(w_closed, "published");
  Metadata *m = metadataLoad(&nb_global_region, str("m"));
  nb_u64 n = M.current_backup.ref_count > 0; for(unsigned i = 0; i < M.backup_history_length; i++) n += bk[i].ref_count > 0;
  OBL(m->backup_history_length == n && m->total_path_count == M.total_path_count && m->current_backup.ref_count == 0, "referenced backups survive");
  if(M.current_backup.ref_count) OBL(m->backup_history[0].completion_time == M.current_backup.completion_time, "time survives");
  for(unsigned i = 0; i < M.backup_history_length; i++) if(bk[i].ref_count) OBL(m->backup_history[rank(&bk[i])].completion_time == bk[i].completion_time, "time survives");
  for(nb_u64 i = 0; i < n; i++) OBL(m->backup_history[i].id == i, "ids");
  same_hist(M.config_history, m->config_history, m); same_nodes(M.paths, m->paths, m);
}
/* ---- reference parser; with m: compares with the loaded metadata ---- */
static nb_u64 rp; static _Bool bad; static nb_u64 rn; static nb_u64 refs[8];
static nb_u64 rd(unsigned n) { nb_u64 v = 0; if(bad || blen - rp < n) { bad = 1; return 0; } for(unsigned i = 0; i < n; i++) v |= (nb_u64)buf[rp++] << (8 * i); return v; }
static nb_u64 ref_hist(PathHistory *h, _Bool cmp, Metadata *m)
{
  nb_u64 c = rd(8);
  for(nb_u64 i = 0; i < c && !bad; i++) {
    nb_u64 id = rd(8); if(id >= rn) { bad = 1; break; } if(id < 8 && !cmp) refs[id]++;
    unsigned t = rd(1); if(t > 3) bad = 1; if(cmp) { OBL(h != 0 && h->backup == &m->backup_history[id] && h->state.type == t, "state as encoded"); }
    if(t != 0) { nb_u64 u = rd(4), g = rd(4); if(cmp) OBL(h->state.uid == u && h->state.gid == g, "owner as encoded"); }
    if(t == PST_regular_file) { nb_u64 p = rd(4), mt = rd(8), s = rd(8); unsigned k = s > 20 ? 20 : s; nb_u64 at = rp; for(unsigned j = 0; j < k; j++) rd(1); unsigned sl = s > 20 ? rd(1) : 0;
      if(cmp) { RegularFileInfo *f = &h->state.metadata.file_info; OBL(f->permission_bits == p && f->modification_time == (time_t)mt && f->size == s && memcmp(f->hash, &buf[at], k) == 0 && (s <= 20 || f->slot == sl), "file as encoded"); } }
    if(t == PST_symlink) { nb_u64 l = rd(8); if(bad || l > blen - rp) { bad = 1; break; } for(nb_u64 j = 0; j < l; j++) if(buf[rp + j] == 0) bad = 1;
      if(cmp) OBL(h->state.metadata.symlink_target.length == l && memcmp(h->state.metadata.symlink_target.content, &buf[rp], l) == 0, "target as encoded"); rp += l; }
    if(t == PST_directory) { nb_u64 p = rd(4), mt = rd(8); if(cmp) OBL(h->state.metadata.directory_info.permission_bits == p && h->state.metadata.directory_info.modification_time == (time_t)mt, "directory as encoded"); }
    if(cmp) h = h->next; }
  if(cmp && !bad) OBL(h == 0, "no additional states");
  return c;
}
static void ref_nodes(PathNode *list, StringView parent, _Bool cmp, Metadata *m)
{
  nb_u64 c = rd(8), k = 0; PathNode *arr[64];
  if(cmp) { for(; list; list = list->next) { OBL(k < 64, "nodes"); arr[k++] = list; } OBL(k == c, "number of nodes"); }
  for(nb_u64 i = 0; i < c && !bad; i++) {
    nb_u64 l = rd(8); if(bad || l == 0 || l > blen - rp) { bad = 1; break; }
    for(nb_u64 j = 0; j < l; j++) if(buf[rp + j] == 0 || buf[rp + j] == '/') bad = 1; if(buf[rp] == '.' && (l == 1 || (l == 2 && buf[rp + 1] == '.'))) bad = 1;
    PathNode *n = cmp ? arr[k - 1 - i] : 0;
    if(cmp) { OBL(n->path.length == parent.length + 1 + l && n->path.content[parent.length] == '/' && memcmp(n->path.content, parent.content, parent.length) == 0 && memcmp(n->path.content + parent.length + 1, &buf[rp], l) == 0, "path as encoded"); OBL(mapped(n), "mapped"); }
    rp += l; unsigned p = rd(1); if(p > BPOL_track) bad = 1; if(cmp) OBL(n->policy == p, "policy as encoded");
    if(bad) break; if(ref_hist(cmp ? n->history : 0, cmp, m) == 0) bad = 1; if(bad) break;
    ref_nodes(cmp ? n->subnodes : 0, cmp ? n->path : parent, cmp, m); }
}
static void ref_file(_Bool cmp, Metadata *m)
{
  rp = 0; bad = 0; for(int i = 0; i < 8; i++) refs[cmp ? 0 : i] = cmp ? refs[0] : 0;
  rn = rd(8); if(rn > blen) bad = 1;
  for(nb_u64 i = 0; i < rn && !bad; i++) { nb_u64 t = rd(8); if(cmp) OBL(m->backup_history[i].id == i && m->backup_history[i].completion_time == (time_t)t, "backup as encoded"); }
  if(!bad) ref_hist(cmp ? m->config_history : 0, cmp, m); nb_u64 tp = rd(8); if(cmp) OBL(m->total_path_count == tp, "number of paths");
  if(!bad) ref_nodes(cmp ? m->paths : 0, str(""), cmp, m);
  if(!bad && rp != blen) bad = 1;
}
void n_load(void)
{
  wild = R(2); build(); metadataWrite(&M, str("r"), str("t"), str("m"));
  unsigned k = wild && R(3) ? 0 : R(4);
  while(k--) { unsigned w = R(7); if(blen == 0) break;
    if(w == 0) blen -= 1 + R(blen); else if(w == 1 && blen < 60000) buf[blen++] = R(256); else if(w == 2) buf[R(blen)] = 0; else if(w == 3) buf[R(blen)] = R(6); else if(w == 4) buf[R(blen)] ^= 1u << R(8); else if(w == 5) buf[R(blen)] = "./\0\3\4\5"[R(6)]; else { /* lengths that overflow */ nb_u64 v = 0 - (nb_u64)R(blen + 40), at = R(blen); if(at + 8 <= blen && R(2)) { /* at a plausible length, followed by text up to the end */ for(unsigned t = 0; t < 200 && at + 8 < blen && !(buf[at] < 6 && buf[at + 1] == 0 && buf[at + 7] == 0 && buf[at + 8] > 31); t++) at = R(blen); nb_u64 e = at + 8 + 1 + R(12); for(nb_u64 i = at + 8; i < e; i++) if(i >= blen || buf[i] == 0 || buf[i] == '/') buf[i] = 'x'; blen = e; v = 0 - (at + 8) + R(40); } for(int i = 0; i < 8 && at + i < blen; i++) buf[at + i] = v >> (8 * i); } }
  ref_file(0, 0); nb_ref_rejects = bad; _Bool rej = bad;
  /* absurd allocation sizes end with an error exit */
  Metadata *m = metadataLoad(&nb_global_region, str("m"));
  OBL(!rej, "malformed metadata accepted");
  ref_file(1, m); OBL(m->backup_history_length == rn, "number of backups");
  for(nb_u64 i = 0; i < rn && i < 8; i++) OBL(m->backup_history[i].ref_count == refs[i], "states per backup are counted");
}
