/* Native replay driver: reads the recorded nondeterministic values and runs
   the harness on the gcc-compiled real code. Raw system calls only, since a
   unit may stand in for any libc function. */
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
#include <fcntl.h>
typedef unsigned long nb_u64;
extern void HARNESS(void);
static nb_u64 vals[1 << 16]; static unsigned n, pos; static int rnd; static nb_u64 seed;
static void out(const char *s) { unsigned l = 0; while(s[l]) l++; syscall(SYS_write, 1, s, l); }
static void outn(nb_u64 q) { char d[24]; int n = 0; do { d[n++] = '0' + q % 10; q /= 10; } while(q); while(n) { char z[2] = { d[--n], 0 }; out(z); } }
static nb_u64 xs(void) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
nb_u64 nb_native_next(void)
{
  if(pos < n) return vals[pos++];
  pos++;
  if(!rnd) return 0;
  nb_u64 r = xs();
  switch(r % 8) { case 0: return 0; case 1: return 1; case 2: return xs() % 4; case 3: return xs() % 8;
    case 4: return xs() % 64; case 5: return xs() & 0xff; case 6: return ~(xs() % 4); default: return xs(); }
}
void nb_native_fail(const char *w) { out("NB-FAIL "); out(w); out("\n"); syscall(SYS_exit_group, 42); }
void nb_native_assume(const char *w) { if(!rnd) { out("NB-ASSUME-FALSE "); out(w); out("\n"); } syscall(SYS_exit_group, 77); }
void nb_native_end(const char *w) { if(!rnd) { out("NB-END "); out(w); out("\n"); } syscall(SYS_exit_group, 0); }
void nb_native_cover(const char *w) { (void)w; }
int main(int c, char **v)
{
  /* argv[1]: text file of decimal values */
  if(c > 1) {
    int fd = syscall(SYS_openat, AT_FDCWD, v[1], O_RDONLY, 0);
    static char buf[1 << 20]; long len = 0, r;
    while(fd >= 0 && len < (long)sizeof buf && (r = syscall(SYS_read, fd, buf + len, sizeof buf - len)) > 0) len += r;
    nb_u64 x = 0; int in = 0;
    for(long i = 0; i < len; i++) {
      if(buf[i] >= '0' && buf[i] <= '9') { x = x * 10 + (buf[i] - '0'); in = 1; }
      else if(in) { if(n < sizeof vals / sizeof *vals) vals[n++] = x; x = 0; in = 0; } }
  }
  if(c > 2) { rnd = 1; const char *s = v[2]; while(*s) seed = seed * 10 + (*s++ - '0'); seed = seed * 0x9E3779B97F4A7C15ul + 1; for(int i=0;i<4;i++) xs(); }
  if(c > 3) { /* seeded random search: count runs in forked children */
    nb_u64 count = 0, secs = 30, good = 0; for(const char *s = v[3]; *s; s++) count = count * 10 + (*s - '0');
    if(c > 4) { secs = 0; for(const char *s = v[4]; *s; s++) secs = secs * 10 + (*s - '0'); }
    long ts[2], t0[2]; syscall(SYS_clock_gettime, 1, t0);
    if(c > 5) { nb_u64 k = 0; for(const char *s = v[5]; *s; s++) k = k * 10 + (*s - '0'); for(nb_u64 i = 0; i <= k; i++) for(int j = 0; j < 3; j++) xs(); HARNESS(); return 0; }
    for(nb_u64 i = 0; i < count; i++) {
      for(int k = 0; k < 3; k++) xs();
      long pid = syscall(SYS_clone, 17, 0, 0, 0, 0);
      if(pid == 0) { syscall(SYS_alarm, 10); break; }
      int st = 0; syscall(SYS_wait4, pid, &st, 0, 0);
      if((st & 0x7f) || ((st >> 8) & 0xff) == 42) {
        out("NB-RUN "); outn(i); out("\n");
        if(st & 0x7f) out((st & 0x7f) == 14 ? "does not terminate\n" : "signal\n");
        syscall(SYS_exit_group, 42);
      }
      if(st == 0) good++;
      syscall(SYS_clock_gettime, 1, ts);
      if(i + 1 == count || ts[0] - t0[0] >= (long)secs) { out("NB-DONE "); outn(i + 1); out(" "); outn(good); out("\n"); syscall(SYS_exit_group, 0); }
    }
  }
  HARNESS();
  if(!rnd) out("NB-DONE\n");
  syscall(SYS_exit_group, 0);
  return 0;
}
