/*NB-UNIT
{ "src": "backup-helpers.c", "props": ["C07"],
  "targets": ["applyNodeChanges"],
  "entries": ["p_changes"], "mode": "P", "confirm": ["w_backup/n_changes"],
  "unwind": 22, "timeout": 250, "sat": "cadical",
  "assumes": ["fileHash() (proved in unit filehash) returns a hash; equal hashes mean equal contents (collision resistance of BLAKE2b)",
     "sSymlinkReadTarget() returns the target of the symlink (proved in unit wrappers); strIsEqual() and strCopy() (proved in unit str)"],
  "entry_props": {"p_changes": ["C07", "C06", "C08", "C10"]}
}
*/
//@POST
#define NB_ON_DIE OBL(nb_may_die, "error exit only where the property allows it")
//@include die.h
//@include sv.h
//@include alloc.h
static PathNode N; static PathState S, O; static struct stat T; static nb_u8 F[20]; /* inline content or hash of the file now */
static nb_u64 FS; static _Bool w_open, w_read, w_hash; static struct FileStream { int x; } fs;
static char pc[1], rc[1], cc[1]; static StringView X_target, X_recorded; static _Bool X_eq, X_asked; static AllocatorPair AP;
static _Bool sv_is(StringView a, StringView b) { return a.content == b.content && a.length == b.length; }
void *memcpy(void *d, const void *s, size_t n) { OBL(n <= 20 && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memcpy"); for(nb_u64 i = 0; i < 20; i++) if(i < n) ((nb_u8 *)d)[i] = ((const nb_u8 *)s)[i]; return d; }
int memcmp(const void *a, const void *b, size_t n) { OBL(n <= 20 && __CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp"); for(nb_u64 i = 0; i < 20; i++) if(i < n && ((const nb_u8 *)a)[i] != ((const nb_u8 *)b)[i]) return ((const nb_u8 *)a)[i] < ((const nb_u8 *)b)[i] ? -1 : 1; return 0; }
#define MAYDIE do { _Bool m = nb_may_die; nb_may_die = 1; if(nd_bool()) die(""); nb_may_die = m; } while(0)
static _Bool need(void) { return O.type == PST_regular_file && O.metadata.file_info.size == T.st_size && O.metadata.file_info.modification_time != T.st_mtime && T.st_size > 0; }
void fileHash(StringView p, struct stat st, uint8_t *h, HashProgressCallback f, void *u)
{
  OBL(sv_is(p, N.path) && st.st_size == T.st_size && st.st_blksize == T.st_blksize && __CPROVER_w_ok(h, 20), "the file is hashed"); OBL(need() && T.st_size > 20 && !w_hash, "content is compared only if the timestamp differs and the size does not"); MAYDIE;
  for(int i = 0; i < 20; i++) h[i] = F[i]; w_hash = 1;
}
FileStream *sFopenRead(StringView p) { OBL(sv_is(p, N.path) && !w_open, "the file is read"); OBL(need() && T.st_size <= 20, "content is compared only if the timestamp differs and the size does not"); MAYDIE; w_open = 1; return &fs; }
void sFread(void *d, size_t n, FileStream *s) { OBL(s == &fs && w_open && !w_read && __CPROVER_w_ok(d, n), "read"); MAYDIE; if(n > FS) { nb_may_die = 1; die(""); } OBL(n == T.st_size, "whole file"); for(nb_u64 i = 0; i < 20; i++) if(i < n) ((nb_u8 *)d)[i] = F[i]; w_read = 1; }
bool sFbytesLeft(FileStream *s) { OBL(s == &fs && w_open, "open stream"); MAYDIE; nb_may_die = FS > T.st_size; return FS > T.st_size; }
void sFclose(FileStream *s) { OBL(s == &fs && w_open, "open stream"); MAYDIE; w_open = 0; }
StringView sSymlinkReadTarget(StringView p, Allocator *a) { OBL(sv_is(p, N.path) && O.type == PST_symlink && a == AP.reusable_buffer, "target of the symlink"); MAYDIE; nb_may_die = X_target.length != T.st_size; return X_target; }
bool strIsEqual(StringView a, StringView b) { OBL((sv_is(a, X_recorded) && sv_is(b, X_target)) || (sv_is(b, X_recorded) && sv_is(a, X_target)), "recorded and current target are compared"); X_asked = 1; return X_eq; }
StringView strCopy(StringView s, Allocator *a) { OBL(sv_is(s, X_target) && a == AP.a, "copy of the target that outlives the buffer"); return (StringView){ .content = cc, .length = s.length, .is_terminated = 1 }; }
void strSet(StringView *d, StringView s) { SV_CPY(*d, s); }
void p_changes(void)
{
  SV_SET(N.path, pc, 1, 1); N.hint = nd_u32(); ASSUME((N.hint & 0x1FF) == 0 && N.hint < (1u << 11)); unsigned h0 = N.hint;
  S.type = nd_range(1, 3); S.uid = nd_u32(); S.gid = nd_u32(); nb_u64 big = nd_bool() ? nd_le(20) : nd_le(1ul << 62);
  if(S.type == PST_regular_file) { RegularFileInfo *f = &S.metadata.file_info; f->permission_bits = nd_u32(); f->modification_time = nd_u64(); f->size = nd_bool() ? big : nd_u64(); for(int i = 0; i < 20; i++) f->hash[i] = nd_u8(); f->slot = nd_u8(); }
  else if(S.type == PST_symlink) { SV_SET(X_recorded, rc, nd_u64(), 1); SV_CPY(S.metadata.symlink_target, X_recorded); }
  else { S.metadata.directory_info.permission_bits = nd_u32(); S.metadata.directory_info.modification_time = nd_u64(); }
  O.type = S.type; O.uid = S.uid; O.gid = S.gid; O.metadata.file_info = S.metadata.file_info;
  if(S.type == PST_directory) O.metadata.directory_info = S.metadata.directory_info;
  nb_u8 recorded[20]; for(int i = 0; i < 20; i++) recorded[i] = S.metadata.file_info.hash[i];
  T.st_uid = nd_u32(); T.st_gid = nd_u32(); T.st_mode = nd_u32(); T.st_mtime = nd_u64(); T.st_size = big; T.st_blksize = nd_range(1, 1ul << 30); FS = nd_u64(); for(int i = 0; i < 20; i++) F[i] = nd_u8();
  static struct Allocator a1, a2; AP.a = &a1; AP.reusable_buffer = &a2; SV_SET(X_target, cc + 0, nd_u64(), 1); static char tc[1]; SV_SET(X_target, tc, X_target.length, 1); X_eq = nd_bool(); w_open = w_read = w_hash = X_asked = 0;
  applyNodeChanges(&AP, &N, &S, T);
  OBL(!w_open, "stream is closed");
  unsigned e = 0; if(O.uid != T.st_uid || O.gid != T.st_gid) e |= BH_owner_changed;
  OBL(S.type == O.type && S.uid == T.st_uid && S.gid == T.st_gid, "owner is recorded");
  if(O.type == PST_regular_file) {
    RegularFileInfo *f = &S.metadata.file_info, *g = &O.metadata.file_info; _Bool cmp = need();
    if(g->permission_bits != T.st_mode) e |= BH_permissions_changed; if(g->modification_time != T.st_mtime) e |= BH_timestamp_changed;
    nb_u64 used = T.st_size > 20 ? 20 : T.st_size; _Bool differs = 0; for(nb_u64 i = 0; i < 20; i++) if(i < used && recorded[i] != F[i]) differs = 1;
    if(g->size != T.st_size) { e |= BH_content_changed; COVER("size changed"); } else if(cmp && differs) { e |= BH_content_changed; COVER("content changed"); }
    if(cmp) OBL(T.st_size > 20 ? w_hash : w_read && FS == T.st_size, "content is compared");
    OBL(f->permission_bits == T.st_mode && f->modification_time == T.st_mtime && f->size == T.st_size && f->slot == g->slot, "new attributes are recorded");
    nb_u64 i = nd_le(19); _Bool upd = cmp && differs && i < used; OBL(f->hash[i] == (upd ? F[i] : recorded[i]), "hash is updated exactly if the content differs");
    OBL(!(N.hint & BH_fresh_hash) || (cmp && differs), "fresh hash only if the hash was just read"); COVER("file"); }
  else if(O.type == PST_symlink) {
    OBL(X_target.length == T.st_size, "a symlink that changes while it is read is an error"); OBL(X_asked, "targets are compared");
    if(!X_eq) { e |= BH_content_changed; OBL(S.metadata.symlink_target.content == cc && S.metadata.symlink_target.length == X_target.length, "new target is recorded"); COVER("target changed"); }
    else OBL(sv_is(S.metadata.symlink_target, X_recorded) || S.metadata.symlink_target.content == cc, "same target"); COVER("symlink"); }
  else { if(O.metadata.directory_info.permission_bits != T.st_mode) e |= BH_permissions_changed; if(O.metadata.directory_info.modification_time != T.st_mtime) e |= BH_timestamp_changed;
    OBL(S.metadata.directory_info.permission_bits == T.st_mode && S.metadata.directory_info.modification_time == T.st_mtime, "new attributes are recorded"); COVER("directory"); }
  OBL((N.hint & ~BH_fresh_hash) == (h0 | e), "exactly the differing attributes are marked"); if(e == 0) COVER("unchanged");
  OBL(sv_is(N.path, (StringView){ .content = pc, .length = 1 }), "path is kept");
}
