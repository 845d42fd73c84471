/*NB-UNIT
{ "src": "backup.c", "props": ["C06","C05","C04"],
  "targets": ["finishBackup"],
  "entries": ["p_add","p_finish"],
  "entry_props": {"p_add": ["C06", "C05", "C03"], "p_finish": ["C06", "C04"]},
  "mode": "P", "confirm": ["w_backup/n_content","w_backup/n_store"],
  "needs": {"p_add": ["addFileToRepo"], "p_finish": ["addFileToRepo","finishBackupRecursively"]},
  "rename_by_entry": {"p_finish": ["*@addFileToRepo","*@finishBackupRecursively"]},
  "link": ["safe-math.c"], "unwind": 22, "timeout": 250, "sat": "cadical",
  "state": ["rpos","ropen","spos","sopen","wpos","wopen","next","ex","diff","cmp","sc","roff","rn","soff","sn","hashed","closed","pos"],
  "lv": [["nb_fi->slot","uint8_t"]],
  "gen": {"PathNode *": "nb_node_gen()"},
  "cands": ["$u + G.rpos == nb_fi->size", "$u + G.wpos == nb_fi->size", "$u + G.spos == nb_fi->size", "G.wpos == G.rpos", "G.spos == G.rpos", "G.cmp == G.rpos", "$u <= nb_fi->size", "nb_fi->slot == G.next", "$b == !G.diff", "G.next <= 255", "nb_fi->slot == 0 || (nb_fi->slot == G.next + 1 && G.ex && G.diff)", "nb_i >= G.cmp || G.diff || nb_c == G.sc", "G.pos == nb_pos($p(PathNode *))", "G.rpos <= nb_fi->size", "G.rpos <= FS", "G.ropen == 0", "G.sopen == 0", "G.wopen == 0"],
  "assumes": ["the size of a block reported by the system is at least 1 and below 2^31",
     "sFread/repoReaderRead fill the buffer with the next bytes or end the program, repoWriterWrite appends the bytes (proved in units wrappers and repo)",
     "fileHash() computes the BLAKE2b hash of the file's bytes (its block loop is proved in unit filehash; BLAKE2 itself is trusted)",
     "p_finish: the contract of addFileToRepo() (p_add)"]
}
*/
//@PRE
struct nb_G { nb_u64 rpos, spos, wpos, next, cmp, pos, roff, rn, soff, sn; nb_u8 sc; _Bool ropen, sopen, wopen, ex, diff, hashed, closed; };
//@MID
extern struct nb_G G; extern RegularFileInfo *nb_fi; extern nb_u64 nb_i; extern nb_u8 nb_c; extern nb_u64 FS;
PathNode *nb_node_gen(void); nb_u64 nb_pos(const PathNode *);
//@POST
#define NB_ALLOC_MAX (1ul << 40)
#define NB_ON_DIE OBL(nb_may_die || (nb_fi->slot == 255 && G.ex && G.diff), "error exit only where the property allows it")
//@include die.h
//@include sv.h
//@include alloc.h
struct nb_G G; RegularFileInfo *nb_fi;
nb_u64 nb_i; nb_u8 nb_c; /* arbitrary watched byte of the file and of the stored candidate */
nb_u64 FS; static time_t FT; static nb_u64 blk; /* size and modification time of the file now */
static PathNode N; static PathHistory H; static StringView X_repo, X_tmp;
static struct FileStream { int x; } fs; static struct RepoReader { int x; } rr; static struct RepoWriter { int x; } rw;
static unsigned char *rbuf, *sbuf;
static _Bool sv_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
void *CR_EnsureCapacity(void *p, size_t n) { OBL(n > 0, "capacity"); nb_u8 *q = malloc(n); ASSUME(q != 0); return q; }
struct stat sStat(StringView p) { OBL(sv_is(p, N.path), "status of the node's path"); struct stat s; s.st_mtime = FT; s.st_size = FS; s.st_blksize = blk; return s; }
FileStream *sFopenRead(StringView p)
{
  OBL(sv_is(p, N.path) && !G.ropen, "the node's file is opened");
  OBL(nb_fi->modification_time == FT, "a file with another modification time is not read");
  nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0;
  G.ropen = 1; G.rpos = 0; return &fs;
}
void sFread(void *d, size_t n, FileStream *s)
{
  OBL(s == &fs && G.ropen, "open stream"); OBL(__CPROVER_w_ok(d, n) || n == 0, "buffer");
  if(G.rpos > FS || n > FS - G.rpos || nd_bool()) { nb_may_die = 1; die(""); }
  rbuf = d; G.roff = G.rpos; G.rn = n;
  if(nb_i >= G.rpos && nb_i - G.rpos < n) ((nb_u8 *)d)[nb_i - G.rpos] = nb_c;
  G.rpos += n;
}
bool sFbytesLeft(FileStream *s) { OBL(s == &fs && G.ropen, "open stream"); if(nd_bool()) { nb_may_die = 1; die(""); } if(G.rpos < FS) nb_may_die = 1; return G.rpos < FS; }
void sFclose(FileStream *s) { OBL(s == &fs && G.ropen, "open stream"); _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; G.ropen = 0; }
bool repoRegularFileExists(StringView r, const RegularFileInfo *f)
{
  OBL(sv_is(r, X_repo) && f == nb_fi, "look for the file in the repository"); OBL(G.hashed, "hash is known");
  if(f->slot == 0) G.next = 0; else { OBL(f->slot == G.next + 1, "next slot"); OBL(G.ex && G.diff, "a slot is passed only if it holds other content"); G.next = f->slot; }
  G.ex = nd_bool(); G.diff = 0; G.cmp = 0; G.sc = nd_u8(); nb_may_die = 0; return G.ex;
}
RepoReader *repoReaderOpenFile(StringView r, StringView p, const RegularFileInfo *f) { OBL(sv_is(r, X_repo) && f == nb_fi && f->slot == G.next && G.ex && !G.sopen, "the stored candidate is opened"); nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0; G.sopen = 1; G.spos = 0; return &rr; }
void repoReaderRead(void *d, size_t n, RepoReader *s)
{
  OBL(s == &rr && G.sopen, "open reader"); OBL(__CPROVER_w_ok(d, n), "buffer"); nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0;
  sbuf = d; G.soff = G.spos; G.sn = n; if(nb_i >= G.spos && nb_i - G.spos < n) ((nb_u8 *)d)[nb_i - G.spos] = G.sc;
  OBL(G.rn == 0 || !__CPROVER_same_object(d, rbuf) || (nb_u8 *)d >= rbuf + G.rn || (nb_u8 *)d + n <= rbuf, "both contents are kept apart");
  G.spos += n;
}
void repoReaderClose(RepoReader *s) { OBL(s == &rr && G.sopen, "open reader"); G.sopen = 0; }
int memcmp(const void *a, const void *b, size_t n)
{
  OBL(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "compared areas");
  OBL((a == rbuf && b == sbuf) || (a == sbuf && b == rbuf), "file and stored copy are compared");
  OBL(n == G.rn && n == G.sn && G.roff == G.soff && G.roff == G.cmp, "all bytes read are compared in order");
  int d = nd_int(); G.cmp += n;
  if(d == 0) { if(nb_i >= G.roff && nb_i - G.roff < n) ASSUME(nb_c == G.sc); } else G.diff = 1;
  return d;
}
RepoWriter *repoWriterOpenFile(StringView r, StringView t, StringView p, const RegularFileInfo *f)
{
  OBL(sv_is(r, X_repo) && sv_is(t, X_tmp) && f == nb_fi && !G.wopen && !G.closed, "one copy is stored");
  OBL(G.hashed && !G.ex && f->slot == G.next, "a free slot after candidates with other content");
  nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0; G.wopen = 1; G.wpos = 0; return &rw;
}
void repoWriterWrite(const void *d, size_t n, RepoWriter *w)
{
  OBL(w == &rw && G.wopen, "open writer"); OBL(__CPROVER_r_ok(d, n), "bytes to write");
  OBL(G.wpos + n <= G.rpos, "only bytes read from the file are written");
  if(nb_i >= G.wpos && nb_i - G.wpos < n) OBL(((const nb_u8 *)d)[nb_i - G.wpos] == nb_c, "the bytes of the file in order");
  nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0; G.wpos += n;
}
void repoWriterClose(RepoWriter *w) { OBL(w == &rw && G.wopen, "open writer"); OBL(G.wpos == nb_fi->size && G.wpos == FS, "the copy is complete"); nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0; G.wopen = 0; G.closed = 1; }
void fileHash(StringView p, struct stat st, uint8_t *h, HashProgressCallback f, void *u)
{
  OBL(sv_is(p, N.path) && h == nb_fi->hash && st.st_size == FS && st.st_blksize == blk, "hash of the file"); OBL(nb_fi->modification_time == FT, "a file with another modification time is not read");
  nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = 0;
  OBL(!G.hashed, "hashed once"); for(int i = 0; i < 4; i++) h[i] = nd_u8(); G.hashed = 1;
}
void p_add(void)
{
  static char a[1], b[1], c[1]; SV_SET(N.path, a, 1, 1); SV_SET(X_repo, b, 1, 1); SV_SET(X_tmp, c, 1, 1);
  N.hint = nd_u32(); N.policy = nd_le(3); N.history = &H; H.state.type = PST_regular_file; nb_fi = &H.state.metadata.file_info;
  nb_fi->size = nd_u64(); nb_fi->modification_time = nd_u64(); nb_fi->slot = nd_u8(); nb_fi->permission_bits = nd_u32(); for(int i = 0; i < 20; i++) nb_fi->hash[i] = nd_u8();
  FS = nd_u64(); FT = nd_u64(); blk = nd_range(1, (1ul << 31) - 1); nb_i = nd_u64(); nb_c = nd_u8();
  ASSUME(nb_fi->size > 0 && nb_fi->size < (1ul << 62) && FS < (1ul << 62));
  _Bool fresh = (N.hint & BH_fresh_hash) != 0; nb_u64 size = nb_fi->size; time_t mt = nb_fi->modification_time;
  nb_u8 h0 = nb_i < 20 ? nb_fi->hash[nb_i] : 0;
  G.ropen = G.sopen = G.wopen = G.ex = G.diff = G.closed = 0; G.hashed = fresh; G.rpos = G.spos = G.wpos = G.next = G.cmp = 0; G.rn = G.sn = 0;
  nb_may_die = FT != mt || FS != size; 
  _Bool md = nb_may_die;
#ifdef NB_HAVE_addFileToRepo
  addFileToRepo(&N, X_repo, X_tmp);
#endif
  OBL(FT == mt, "a changed modification time is an error");
  OBL(!G.ropen && !G.sopen && !G.wopen, "all streams are closed");
  OBL(nb_fi->size == size && nb_fi->modification_time == mt && H.state.type == PST_regular_file, "recorded attributes are kept");
  if(size > FILE_HASH_SIZE) {
    OBL(G.hashed, "hash is recorded");
    OBL(nb_fi->slot == G.next, "slot of the content");
    if(G.closed) { OBL(!G.ex && G.wpos == size && FS == size, "the whole file is stored"); COVER("stored"); if(G.next > 3) COVER("stored in a later slot"); }
    else { OBL(G.ex && !G.diff && G.cmp == size && FS == size, "an identical file is stored already"); if(nb_i < size) OBL(nb_c == G.sc, "identical bytes"); COVER("duplicate"); } }
  else {
    OBL(!G.closed, "small files are not stored separately");
    if(fresh) { if(nb_i < 20) OBL(nb_fi->hash[nb_i] == h0, "fresh content is kept"); COVER("fresh small file"); }
    else { OBL(FS == size, "whole content is read"); if(nb_i < size) OBL(nb_fi->hash[nb_i] == nb_c, "content is stored inline"); COVER("small file"); } }
}
/* ---------- the whole tree ---------- */
static PathNode nb_sub; static Metadata M; static _Bool w_done; static nb_u64 w_subs;
static PathHistory LH[7];
static int hidx;
static void fill_node(PathNode *p, nb_u64 pos)
{
  PathHistory *h = &LH[hidx++ % 7]; h->state.type = nd_le(3); h->state.metadata.file_info.size = nd_u64(); p->history = h; p->hint = nd_u32(); p->policy = nd_le(3); p->subnodes = nd_bool() ? 0 : &nb_sub;
}
//@include list.h
NB_LIST(PathNode, NL, next, fill_node)
PathNode *nb_node_gen(void) { hidx = 3; return NL_gen(); }
nb_u64 nb_pos(const PathNode *p) { return NB_POS(NL, p); }
static _Bool due(const PathNode *p)
{
  unsigned h = p->hint & 0x1FF; const PathState *s = &p->history->state;
  return s->type == PST_regular_file && s->metadata.file_info.size > 0 && (h == BH_added || h == BH_symlink_to_regular || h == BH_directory_to_regular || (p->hint & BH_content_changed));
}
static void NBC_addFileToRepo(PathNode *p, StringView r, StringView t)
{
  OBL(sv_is(r, X_repo) && sv_is(t, X_tmp), "repository paths"); OBL(p == NB_AT(NL, G.pos) && !G.ex, "each file is added once"); OBL(due(p), "only new or changed files are read"); G.ex = 1;
  if(nd_bool()) { nb_may_die = 1; die(""); }
}
static void NBC_finishBackupRecursively(Metadata *m, PathNode *l, StringView r, StringView t)
{
  OBL(m == &M && sv_is(r, X_repo) && sv_is(t, X_tmp), "repository paths"); PathNode *p = NB_AT(NL, G.pos);
  OBL(p && l == p->subnodes, "subnodes of every node are processed"); OBL(!due(p) || G.ex, "new or changed file is added"); G.pos++; G.ex = 0;
}
void p_finish(void)
{
  static char a[1], b[1], c[1]; SV_SET(X_repo, b, 1, 1); SV_SET(X_tmp, c, 1, 1); nb_fi = &LH[0].state.metadata.file_info; hidx = 0;
  PathNode *l = NB_NEW(NL); G.pos = 0; G.ex = 0; 
#ifdef NB_HAVE_finishBackupRecursively
  finishBackupRecursively(&M, l, X_repo, X_tmp);
#endif
  OBL(G.pos == NL_L, "every node is processed"); COVER("finished"); if(NL_L > 2) COVER("several nodes");
}
