/*NB-UNIT
{ "src": "colors.c", "props": ["C20"],
  "targets": ["colorPrintf"], "entries": ["n_color"], "mode": "N", "nsecs": 3, "ncount": 3000
}
*/
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
FILE *fmemopen(void *, size_t, const char *); static _Bool X_tty; bool sIsTTY(FILE *f) { return X_tty; } int strcmp(const char *, const char *); int sprintf(char *, const char *, ...);
void n_color(void)
{
  static char b[300], w[300]; FILE *f = fmemopen(b, 300, "w"); X_tty = nd_bool(); TextColor c = nd_le(13); nb_u64 v = nd_u64(); colorPrintf(f, c, "a%lu-%s%%", v, "text"); fclose(f); sprintf(w, "a%lu-text%%", v);
  if(!X_tty) OBL(strcmp(b, w) == 0, "the text is printed once"); else { char x[300]; unsigned n = 0; for(unsigned i = 0; b[i]; ) { if(b[i] == 033) { while(b[i] && b[i] != 'm') i++; if(b[i]) i++; } else x[n++] = b[i++]; } x[n] = 0; OBL(strcmp(x, w) == 0, "the text is printed once"); OBL(b[0] == 033, "coloured"); }
}
