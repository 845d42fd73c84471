/* ---- format of one history state: the specification ---- */
static nb_u8 le(nb_u64 v, nb_u64 k) { return (nb_u8)(v >> (8 * k)); }
static nb_u64 rec_len(const PathHistory *p)
{
  nb_u64 n = 9;
  if(p->state.type == PST_non_existing) return n;
  n += 8;
  if(p->state.type == PST_regular_file) return n + 20 + (p->state.metadata.file_info.size > 20 ? 21 : p->state.metadata.file_info.size);
  if(p->state.type == PST_symlink) return n + 8 + p->state.metadata.symlink_target.length;
  return n + 12;
}
static nb_u8 rec_byte(const PathHistory *p, nb_u64 id, nb_u64 o)
{
  if(o < 8) return le(id, o);
  if(o == 8) return p->state.type;
  if(o < 13) return le(p->state.uid, o - 9);
  if(o < 17) return le(p->state.gid, o - 13);
  if(p->state.type == PST_regular_file) {
    if(o < 21) return le(p->state.metadata.file_info.permission_bits, o - 17);
    if(o < 29) return le(p->state.metadata.file_info.modification_time, o - 21);
    if(o < 37) return le(p->state.metadata.file_info.size, o - 29);
    return o < 57 ? p->state.metadata.file_info.hash[o - 37] : p->state.metadata.file_info.slot;
  }
  if(p->state.type == PST_symlink) return o < 25 ? le(p->state.metadata.symlink_target.length, o - 17) : (nb_u8)p->state.metadata.symlink_target.content[o - 25];
  if(o < 21) return le(p->state.metadata.directory_info.permission_bits, o - 17);
  return le(p->state.metadata.directory_info.modification_time, o - 21);
}
