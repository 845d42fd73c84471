/*NB-UNIT
{ "src": "file-hash.c", "props": ["C06","C07"],
  "targets": ["fileHash"],
  "entries": ["p_hash"], "mode": "P", "confirm": ["w_backup/n_content"],
  "unwind": 4, "timeout": 60, "sat": "cadical",
  "deadtypes": ["blake2b_state"],
  "state": ["rpos","open","hpos","init","prog","roff"],
  "cands": ["$u + G.rpos == FS", "$u + G.hpos == FS", "$u == G.rpos", "$u == G.hpos", "G.hpos == G.rpos", "!nb_p || G.prog == G.rpos", "$u <= FS", "G.rpos <= XS"],
  "assumes": ["the content of blake2b_state is only used by the BLAKE2 functions",
     "blake2b_update()/blake2b_final() compute the BLAKE2b hash of the bytes they are given in order (third-party code, trusted; sampled by w_backup)",
     "the size of a block reported by the system is at least 1 and below 2^31"],
  "entry_props": {"p_hash": ["C06", "C07", "C13"]}
}
*/
//@PRE
struct nb_G { nb_u64 rpos, hpos, prog, roff; _Bool open, init; };
//@MID
extern struct nb_G G; extern nb_u64 FS, XS; extern _Bool nb_p;
//@POST
//@include die.h
//@include sv.h
//@include alloc.h
struct nb_G G; nb_u64 FS, XS; _Bool nb_p;
static nb_u64 nb_i; static nb_u8 nb_c; static StringView P; static _Bool w_final;
static struct FileStream { int x; } fs; static blake2b_state *X_st; static nb_u8 X_out[20];
void *CR_EnsureCapacity(void *p, size_t n) { OBL(n > 0, "capacity"); nb_u8 *q = malloc(n); ASSUME(q != 0); return q; }
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
FileStream *sFopenRead(StringView p) { OBL(p.content == P.content && p.length == P.length && !G.open, "the file is opened"); MAYDIE; G.open = 1; G.rpos = 0; return &fs; }
void sFread(void *d, size_t n, FileStream *s)
{
  OBL(s == &fs && G.open, "open stream"); OBL(n == 0 || __CPROVER_w_ok(d, n), "buffer"); MAYDIE;
  if(n > XS - G.rpos) { nb_may_die = 1; die(""); }
  if(nb_i >= G.rpos && nb_i - G.rpos < n) ((nb_u8 *)d)[nb_i - G.rpos] = nb_c;
  G.rpos += n;
}
bool sFbytesLeft(FileStream *s) { OBL(s == &fs && G.open, "open stream"); MAYDIE; nb_may_die = G.rpos < XS; return G.rpos < XS; }
void sFclose(FileStream *s) { OBL(s == &fs && G.open, "open stream"); MAYDIE; G.open = 0; }
#undef blake2b_init
#undef blake2b_update
#undef blake2b_final
int blake2b_init(blake2b_state *s, size_t n) { OBL(n == FILE_HASH_SIZE && !G.init, "hash is started once"); X_st = s; G.init = 1; G.hpos = 0; return 0; }
int blake2b_update(blake2b_state *s, const void *d, size_t n)
{
  OBL(G.init && s == X_st, "started hash"); OBL(__CPROVER_r_ok(d, n), "bytes to hash"); OBL(G.hpos + n <= G.rpos, "only bytes of the file are hashed");
  if(nb_i >= G.hpos && nb_i - G.hpos < n) OBL(((const nb_u8 *)d)[nb_i - G.hpos] == nb_c, "bytes are hashed in order");
  G.hpos += n; return 0;
}
int blake2b_final(blake2b_state *s, void *o, size_t n) { OBL(G.init && s == X_st && o == X_out && n == FILE_HASH_SIZE && !w_final, "the whole hash is returned"); OBL(G.hpos == FS && XS == FS, "all bytes of the file are hashed"); w_final = 1; return 0; }
static void cb(size_t n, void *u) { OBL(u == &P && n > 0, "progress"); G.prog += n; OBL(G.prog <= G.rpos, "progress follows reading"); }
void p_hash(void)
{
  static char a[1]; SV_SET(P, a, 1, 1); FS = nd_le(1ul << 62); XS = nd_le(1ul << 62); nb_i = nd_u64(); nb_c = nd_u8(); nb_may_die = 0;
  G.rpos = G.hpos = G.prog = 0; G.open = G.init = 0; w_final = 0;
  struct stat st; st.st_size = FS; st.st_blksize = nd_range(1, (1ul << 31) - 1); nb_p = nd_bool();
  fileHash(P, st, X_out, nb_p ? cb : NULL, &P);
  OBL(w_final && !G.open, "hash is calculated, stream is closed"); OBL(XS == FS, "another size is an error");
  COVER("hashed"); if(nb_p) { OBL(G.prog == FS, "all progress is reported"); COVER("progress"); } if(FS == 0) COVER("empty file");
}
