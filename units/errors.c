/*NB-UNIT
{ "src": "error-handling.c", "props": ["C21","C04"],
  "targets": ["die","dieErrno"], "entries": ["p_die","p_dieerrno"], "mode": "P", "confirm": ["w_errors/n_die"],
  "unwind": 20, "timeout": 100, "nobody_ok": [],
  "assumes": ["exit() ends the program with the given status after running the registered handlers"]
}
*/
//@POST
static int X_errno, e0; int *__errno_location(void) { return &X_errno; } static int nout; static _Bool w_msg, w_err; static char txt[4], fmt[4];
int fprintf(FILE *f, const char *s, ...) { OBL(f == stderr, "errors are printed to stderr"); nout++; return 1; }
int vfprintf(FILE *f, const char *s, va_list a) { OBL(f == stderr && s == fmt && !w_msg, "the message is printed once"); w_msg = 1; X_errno = nd_int(); return nd_int(); }
char *strerror(int e) { w_err = 1; return txt; }
int fputs(const char *s, FILE *f) { return fprintf(f, s); } int fputc(int c, FILE *f) { return fprintf(f, ""); } void perror(const char *s) { w_err = 1; }
static _Bool X_e;
static void end(int s) { OBL(s != 0 && (s & 255) != 0, "the exit status tells the failure"); OBL(w_msg, "the error is reported"); if(X_e) OBL(w_err, "the reason is reported"); COVER("exit"); NB_STOP("exit"); }
void exit(int s) { end(s); __builtin_unreachable(); }
void p_die(void) { X_e = 0; w_msg = w_err = 0; nout = 0; e0 = X_errno = nd_int(); die(fmt, 1, txt); OBL(0, "never returns"); }
void p_dieerrno(void) { X_e = 1; w_msg = w_err = 0; nout = 0; e0 = X_errno = nd_int(); dieErrno(fmt, 1, txt); OBL(0, "never returns"); }
