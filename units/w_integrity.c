/*NB-UNIT
{ "src": "integrity.c", "props": ["C13"],
  "targets": ["checkIntegrity"],
  "entries": ["n_integrity"], "mode": "N", "direct": 1, "nsecs": 20, "ncount": 60000,
  "nlink": ["str.c","safe-math.c","string-table.c","file-hash.c","third-party/SipHash/siphash.c","third-party/BLAKE2/blake2b.c"]
}
*/
//@POST
#define MF_MAX 260
//@include world.h
//@include synth.h
static void progress(uint64_t d, uint64_t t, void *u) { }
static _Bool broken(PathNode *n)
{
  for(PathHistory *h = n->history; h; h = h->next) if(h->state.type == PST_regular_file && h->state.metadata.file_info.size > 20) {
    const RegularFileInfo *f = &h->state.metadata.file_info; struct mf *m = w_stored(f); if(!m || !S_ISREG(m->mode) || m->size != f->size) return 1; nb_u8 x[20]; w_hash(x, m->data, m->size); if(memcmp(x, f->hash, 20)) return 1; }
  return 0;
}
void n_integrity(void)
{
  mf_new("/", S_IFDIR | 0755); mf_new("/R", S_IFDIR | 0755); sy_files(1); sy_build(); w_put("/R/other", "0123456789012345678901234567890", 31);
  unsigned k = R(5); while(k--) {
    RegularFileInfo *f = &sy_pool[R(sy_np)]; struct mf *m = f->size > 20 ? w_stored(f) : 0; if(!m || !m->size) continue; unsigned w = R(7);
    if(w == 0) m->used = 0; else if(w == 1) { m->size -= 1 + R(m->size); } else if(w == 2) mf_add(m, "tail tail", 1 + R(9)); else if(w == 3) m->data[R(m->size)] ^= 1 << R(8); else if(w == 4) m->data[m->size - 1] ^= 1 << R(8);
    else if(w == 5) { m->mode = R(2) ? S_IFDIR | 0755 : S_IFIFO | 0600; } else { /* a copy behind a symlink */ struct mf *o = mf_raw("/R/other"); mf_set(o, m->data, m->size); m->mode = S_IFLNK | 0777; mf_set(m, "/R/other", 8); } }
  mf_readonly = 1; w_readonly_repo = 1; CR_Region r; memset(&r, 0, sizeof r); memset(&r, 0, sizeof r);
  ListOfBrokenPathNodes *l = checkIntegrity(&r, &M, R(2) ? w_repo() : str("/R"), R(2) ? progress : 0, 0); OBL(mf_open == 0, "streams closed");
  for(unsigned i = 0; i < sy_nn; i++) { unsigned c = 0; for(ListOfBrokenPathNodes *x = l; x; x = x->next) c += x->node == &sy_nodes[i]; OBL(c == broken(&sy_nodes[i]), "exactly the damaged paths are reported, once each"); }
  unsigned c = 0; for(ListOfBrokenPathNodes *x = l; x; x = x->next) c++; unsigned e = 0; for(unsigned i = 0; i < sy_nn; i++) e += broken(&sy_nodes[i]); OBL(c == e, "nothing else is reported");
}
