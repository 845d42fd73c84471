/*NB-UNIT
{ "src": "colors.c", "props": ["C20"],
  "targets": ["colorPrintf"], "entries": ["p_color"], "mode": "P", "confirm": ["w_colors/n_color"],
  "unwind": 20, "timeout": 100
}
*/
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
static char fmt[4]; static int fobj; static _Bool X_tty; static int nfmt, nmsg;
bool sIsTTY(FILE *f) { OBL(f == (FILE *)&fobj, "stream"); return X_tty; }
int fprintf(FILE *f, const char *s, ...) { OBL(f == (FILE *)&fobj && X_tty && s != fmt, "colours are used for terminals only"); OBL(s[0] == 033, "escape sequence"); nfmt++; OBL(nfmt == (nmsg ? 2 : 1), "text is printed between the escape sequences"); return 1; }
int vfprintf(FILE *f, const char *s, va_list a) { OBL(f == (FILE *)&fobj && s == fmt && nmsg == 0 && nfmt == X_tty, "the text is printed"); nmsg++; return 1; }
void p_color(void) { nfmt = nmsg = 0; X_tty = nd_bool(); TextColor c = nd_le(13); colorPrintf((FILE *)&fobj, c, fmt, 1, fmt); OBL(nmsg == 1 && nfmt == (X_tty ? 2 : 0), "the text is printed once"); if(X_tty) COVER("coloured"); else COVER("plain"); }
