/*NB-UNIT
{ "src": "error-handling.c", "props": ["C21","C04"],
  "targets": ["die","dieErrno"], "entries": ["n_die"], "mode": "N", "nsecs": 3, "ncount": 500
}
*/
//@POST
/* the text and the exit status of a child process */
int pipe(int *); int fork(void); int dup2(int, int); long read(int, void *, unsigned long); int close(int); int waitpid(int, int *, int); int *__errno_location(void);
void n_die(void)
{
  int p[2]; OBL(pipe(p) == 0, "pipe"); int k = nd_u64() % 5; nb_u64 v = nd_u64(); int c = fork();
  if(c == 0) { dup2(p[1], 2); *__errno_location() = 2; switch(k) { case 0: die("x %lu %s", v, "text"); case 1: dieErrno("x %lu %s", v, "text"); case 2: die("plain"); case 3: dieErrno("plain"); default: die("%.*s", 3, "abcdef"); } exit(0); }
  close(p[1]); char b[600], want[600]; long n = 0, r; while((r = read(p[0], b + n, sizeof b - 1 - n)) > 0) n += r; b[n] = 0; int st; waitpid(c, &st, 0); OBL((st & 127) == 0 && st >> 8 != 0, "the exit status tells the failure");
  if(k < 2) sprintf(want, "x %lu text", v); else sprintf(want, k == 4 ? "abc" : "plain"); OBL(strstr(b, want) != 0, "the error is reported"); if(k == 1 || k == 3) OBL(strstr(b, strerror(2)) != 0, "the reason is reported"); OBL(n && b[n - 1] == '\n', "whole line");
}
