/* Synthetic metadata and repositories for the native searches: a random tree
   of paths with random histories over a pool of stored files. */
static Metadata M; static Backup sy_bk[4]; static PathNode sy_nodes[48]; static unsigned sy_nn; static PathHistory sy_hs[256]; static unsigned sy_nh;
static RegularFileInfo sy_pool[80]; static unsigned sy_np;
/* with: the stored files exist and fit to their hashes */
static void sy_files(_Bool with)
{
  sy_np = R(3) ? 1 + R(12) : 30 + R(51);
  for(unsigned i = 0; i < sy_np; i++) {
    RegularFileInfo *f = &sy_pool[i]; f->permission_bits = 0644; f->modification_time = 100 + R(5);
    if(i && R(5) == 0) { /* differs from another one only in its slot (or size) */ __builtin_memcpy((void *)f, &sy_pool[R(i)], sizeof *f); f->slot = 1 + R(255); if(!with && R(3) == 0) f->size++; }
    else { f->slot = R(4) ? 0 : R(256); f->size = R(5) ? 21 + R(2) * R(100) : R(21); for(int k = 0; k < 20; k++) f->hash[k] = R(4) ? R(256) : 0; }
    if(f->size <= 20) continue;
    nb_u8 b[200]; for(unsigned k = 0; k < f->size; k++) b[k] = R(256); struct mf *m = w_stored(f); if(with) { if(m) memcpy(b, m->data, f->size); w_hash(f->hash, b, f->size); } w_put(w_abs(f), b, f->size); }
}
static PathHistory *sy_history(void)
{
  unsigned k = 1 + R(3) * R(2); PathHistory *first = 0, **at = &first; unsigned b = 0;
  while(k--) {
    if(sy_nh == 256) NB_STOP("big"); PathHistory *p = &sy_hs[sy_nh++]; *at = p; at = &p->next; p->next = 0; p->backup = b ? &sy_bk[b - 1] : &M.current_backup; p->backup->ref_count++; if(b < 4) b++;
    p->state.type = R(3) ? PST_regular_file : R(4);
    if(p->state.type == PST_symlink) strSet(&p->state.metadata.symlink_target, str("/x"));
    else if(p->state.type == PST_regular_file) __builtin_memcpy((void *)&p->state.metadata.file_info, &sy_pool[R(sy_np)], sizeof sy_pool[0]);
    else { p->state.metadata.directory_info.permission_bits = 0755; p->state.metadata.directory_info.modification_time = 5; if(p->state.type != PST_directory && R(2)) { __builtin_memcpy((void *)&p->state.metadata.file_info, &sy_pool[R(sy_np)], sizeof sy_pool[0]); } } }
  return first;
}
static PathNode *sy_tree(StringView parent, unsigned depth)
{
  unsigned k = R(depth == 0 ? 6 : 4); if(depth > 3) k = 0; PathNode *first = 0, **at = &first;
  for(unsigned j = 0; j < k && sy_nn < 48; j++) {
    PathNode *n = &sy_nodes[sy_nn++]; *at = n; at = &n->next; n->next = 0; char *c = malloc(parent.length + 3); memcpy(c, parent.content, parent.length); c[parent.length] = '/'; c[parent.length + 1] = 'a' + j; c[parent.length + 2] = 0;
    SV_SET(n->path, c, parent.length + 2, 1); n->hint = R(6) == 0 ? BH_not_part_of_repository | (R(2) ? BH_policy_changed : 0) : R(2) ? BH_unchanged : R(2) ? BH_none : BH_added | (R(2) ? BH_policy_changed : 0); if(R(9) == 0) n->hint = BH_removed; if(R(5) == 0) n->hint |= BH_policy_changed | BH_loses_history;
    n->policy = R(4); n->history = sy_history(); n->subnodes = sy_tree(n->path, depth + 1); }
  return first;
}
static void sy_build(void)
{
  static CR_Region r; M.r = &r; M.backup_history_length = 4; M.backup_history = sy_bk; for(unsigned i = 0; i < 4; i++) { sy_bk[i].id = i + 1; sy_bk[i].completion_time = 50 - i; }
  M.config_history = 0; M.paths = sy_tree(str(""), 0); M.total_path_count = sy_nn;
}
