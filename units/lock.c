/*NB-UNIT
{ "src": "repository.c", "props": ["C19"],
  "targets": ["repoLock"],
  "entries": ["h_lock","h_lemma"],
  "nocut": ["*"], "rename": ["*@strAppendPath"],
  "link": ["safe-math.c","str.c"], "unwind": 10, "bunwind": 10, "timeout": 400,
  "assumes": ["lockf(F_TLOCK) grants a lock on an inode to at most one process and never blocks; inode numbers of open files are not reused",
              "every process accessing the repository is nano-backup (it follows the protocol proved here)"],
  "entry_props": {"h_lock": ["C19", "C04"], "h_lemma": ["C19", "C04"]}
}
*/
//@POST
//@include die.h
static nb_u64 nb_i;
#ifdef NB_MODE_P
#define MAXLEN (1ul << 32)
#else
#define MAXLEN 3
#endif
//@include mem.h
//@include alloc.h
static int nb_errno_v;
int *__errno_location(void) { return &nb_errno_v; }
#ifdef NB_MODE_P
size_t strlen(const char *s) { OBL(s[0] == 'l' && s[1] == 'o' && s[2] == 'c' && s[3] == 'k' && s[4] == 'f' && s[5] == 'i' && s[6] == 'l' && s[7] == 'e' && s[8] == 0, "name of the lockfile"); return 8; }
#endif
void *CR_EnsureCapacity(void *p, size_t n) { OBL(0, "not used"); return 0; }
static StringView X_repo;
/* contract of strAppendPath() (proved in unit str): the joined path */
static char nb_tok[4];
static StringView NBC_strAppendPath(StringView a, StringView b, Allocator *al)
{
  OBL(a.content == X_repo.content && a.length == X_repo.length, "lockfile inside the repository");
  OBL(b.length == 8 && b.content[0] == 'l' && b.content[1] == 'o' && b.content[2] == 'c' && b.content[3] == 'k' && b.content[4] == 'f' && b.content[5] == 'i' && b.content[6] == 'l' && b.content[7] == 'e', "name of the lockfile");
  return (StringView){ .content = nb_tok, .length = a.length + 9, .is_terminated = 1 };
}
/* Rely/guarantee argument.  Protocol invariant over all processes:
     a process that holds the repository has locked the inode its lockfile
     path refers to.
   Two holders would therefore have locked the same inode (h_lemma).
   Guarantee of this process: it unlinks the path only while it holds.
   Rely: the other processes do the same, at every step. */
enum { P_NONE, P_MINE, P_OTHER };
static int path_at;            /* what the lockfile path refers to */
static _Bool other_locked;     /* another process has locked my inode */
static _Bool locked, opened, closed, held, may_hold;
static int X_fd = 6; static _Bool erofs; static _Bool unlinked;
static void env(void)
{
  /* my lock on the inode at the path keeps all others from holding */
  if(locked && path_at == P_MINE) return;
  if(!locked) other_locked = nd_bool();
  if(path_at == P_MINE && nd_bool()) path_at = nd_bool() ? P_NONE : P_OTHER;
  else if(path_at != P_MINE) path_at = nd_bool() ? P_NONE : P_OTHER;
}
static char nb_tok[4] = "lf"; /* stands for "<repo>/lockfile" */
static void is_lockfile(const char *p)
{
  if(p == nb_tok) return;
  nb_u64 l = X_repo.length;
  if(nb_i < l) OBL(p[nb_i] == X_repo.content[nb_i], "lockfile inside the repository");
  OBL(p[l] == '/' && p[l + 1] == 'l' && p[l + 2] == 'o' && p[l + 3] == 'c' && p[l + 4] == 'k' && p[l + 5] == 'f' && p[l + 6] == 'i' && p[l + 7] == 'l' && p[l + 8] == 'e' && p[l + 9] == 0, "lockfile inside the repository");
}
int open(const char *p, int flags, ...)
{
  is_lockfile(p); env();
  OBL(!opened || closed, "one descriptor at a time");
  OBL(flags & O_CREAT, "created if missing"); OBL(!(flags & O_TRUNC) || 1, "");
  if(nd_bool()) { nb_errno_v = erofs ? EROFS : nd_int(); ASSUME(nb_errno_v != 0); erofs = nb_errno_v == EROFS; nb_may_die = 1; return -1; }
  opened = 1; closed = 0; locked = 0; path_at = P_MINE; other_locked = nd_bool();
  return X_fd;
}
int lockf(int fd, int cmd, off_t len)
{
  OBL(fd == X_fd && opened && !closed, "lock of the open lockfile"); OBL(len == 0, "whole file");
  env();
  if(cmd == F_ULOCK) { locked = 0; return 0; }
  OBL(cmd == F_TLOCK || cmd == F_LOCK, "lock request");
  if(other_locked) { if(cmd == F_LOCK) NB_STOP("blocked"); nb_errno_v = nd_bool() ? EACCES : EAGAIN; nb_may_die = 1; return -1; }
  if(nd_bool()) { nb_errno_v = nd_int(); ASSUME(nb_errno_v != 0); nb_may_die = 1; return -1; }
  locked = 1; return 0;
}
static void fill(struct stat *s, int which) { s->st_dev = 1; s->st_ino = which == P_MINE ? 10 : 20; }
int fstat(int fd, struct stat *s)
{
  OBL(fd == X_fd && opened && !closed, "open lockfile"); env();
  if(nd_bool()) { nb_may_die = 1; nb_errno_v = 5; return -1; }
  fill(s, P_MINE); s->st_nlink = path_at == P_MINE ? 1 : 0; return 0;
}
int stat(const char *p, struct stat *s)
{
  is_lockfile(p); env();
  if(path_at != P_MINE || nd_bool()) nb_may_die = 1;
  if(path_at == P_NONE || (nb_may_die && nd_bool())) { nb_errno_v = ENOENT; return -1; }
  fill(s, path_at); s->st_nlink = 1;
  return 0;
}
int lstat(const char *p, struct stat *s) { return stat(p, s); }
int close(int fd)
{
  OBL(fd == X_fd && opened && !closed, "closed once"); env();
  locked = 0; closed = 1; return nd_bool() ? 0 : -1;
}
static void do_unlink(const char *p)
{
  is_lockfile(p); env();
  OBL(held && locked && path_at == P_MINE, "the lockfile is removed only by the process which holds it");
  if(nd_bool()) { path_at = P_NONE; unlinked = 1; }
}
int remove(const char *p) { do_unlink(p); return nd_bool() ? 0 : -1; }
int unlink(const char *p) { do_unlink(p); return nd_bool() ? 0 : -1; }
int ftruncate(int fd, off_t n) { OBL(fd == X_fd, "lockfile"); return 0; }
void h_lock(void)
{
  nb_i = nd_le(MAXLEN);
#ifdef NB_MODE_P
  nb_watch = nb_i;
#endif
  nb_u64 len = nd_le(MAXLEN);
  char *c = malloc(len + 1); ASSUME(c != 0);
#ifndef NB_MODE_P
  for(nb_u64 i = 0; i < len; i++) { nb_u8 x = nd_u8(); c[i] = x ? (char)x : 'a'; }
#endif
  strSet(&X_repo, (StringView){ .content = c, .length = len, .is_terminated = 0 });
  path_at = nd_le(2); if(path_at == P_MINE) path_at = P_OTHER;
  int e = nd_int(); nb_errno_v = e;
  CR_Region *r = CR_RegionNew();
  RepoLockHint hint = nd_bool() ? RLH_readonly : RLH_readwrite;
  nb_may_die = 0;
  repoLock(r, X_repo, hint);
  env();
  if(erofs)
  {
    OBL(hint == RLH_readonly, "without a lock only for reading from a read-only file system");
    OBL(!opened, "no lockfile"); COVER("read-only file system");
    OBL(nb_errno_v == e, "errno is kept");
  }
  else
  {
    OBL(opened && !closed && locked && path_at == P_MINE, "holds exactly the lockfile of the repository");
    COVER("locked");
    held = 1;
  }
  e = nb_errno_v;
  CR_RegionRelease(r);
  OBL(nb_errno_v == e, "errno is kept"); COVER("released");
  if(!erofs) OBL(closed && !locked, "released together with its owner");
}
/* lemma: at most one holder, from the protocol invariant */
void h_lemma(void)
{
  nb_u64 path_ino = nd_u64();
  nb_u64 a_ino = nd_u64(), b_ino = nd_u64(), owner_of_a = nd_u64(), owner_of_b = nd_u64();
  _Bool a_holds = nd_bool(), b_holds = nd_bool();
  ASSUME(IMPLIES(a_ino == b_ino, owner_of_a == owner_of_b));          /* lockf: one owner per inode */
  ASSUME(IMPLIES(a_holds, a_ino == path_ino && owner_of_a == 1));     /* invariant for process 1 */
  ASSUME(IMPLIES(b_holds, b_ino == path_ino && owner_of_b == 2));     /* invariant for process 2 */
  OBL(!(a_holds && b_holds), "two processes never hold the repository at the same time");
  COVER("lemma");
}
