/* sprintf/snprintf: exact for the conversions %[0][width][hh|h|l|ll|z](x|X|u|d), %c, %s, %% */
#include <stdarg.h>
static int nb_vfmt(char *out, nb_u64 cap, _Bool bounded, const char *f, va_list ap)
{
  nb_u64 n = 0;
#define NB_PUT(ch) do { if(out && (!bounded || n + 1 < cap)) out[n] = (ch); n++; } while(0)
  while(*f)
  {
    if(*f != '%') { NB_PUT(*f); f++; continue; }
    f++;
    _Bool zero = 0; unsigned width = 0; int lng = 0;
    if(*f == '0') { zero = 1; f++; }
    if(*f >= '1' && *f <= '9') { width = *f - '0'; f++; }
    if(*f >= '0' && *f <= '9') { width = width * 10 + *f - '0'; f++; }
    if(*f == 'l' || *f == 'z' || *f == 'j') { lng = 1; f++; if(*f == 'l') f++; }
    else if(*f == 'h') { f++; lng = -1; if(*f == 'h') { lng = -2; f++; } }
    if(*f == 'x' || *f == 'X' || *f == 'u')
    {
      nb_u64 v = lng == 1 ? va_arg(ap, nb_u64) : va_arg(ap, nb_u32);
      if(lng == -2) v &= 0xff; if(lng == -1) v &= 0xffff;
      const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
      if(*f != 'u' && zero && width == 2)
      {
        OBL(v < 256, "two digits are enough");
        NB_PUT(dg[(v >> 4) & 15]); NB_PUT(dg[v & 15]);
      }
      else if(*f == 'u')
      {
        char tmp[20]; unsigned k = 0;
        do { tmp[k++] = '0' + v % 10; v /= 10; } while(v);
        unsigned digits = k;
        while(digits < width) { NB_PUT(zero ? '0' : ' '); digits++; }
        while(k > 0) { k--; NB_PUT(tmp[k]); }
      }
      else
      {
        unsigned k = 1, top = lng == 1 ? 16 : lng == -2 ? 2 : lng == -1 ? 4 : 8;
        for(unsigned j = 1; j < top; j++) if(v >> (4 * j)) k = j + 1;
        for(unsigned j = k; j < width; j++) NB_PUT(zero ? '0' : ' ');
        for(unsigned j = 0; j < top; j++) if(j < k) { if(out && (!bounded || n + j + 1 < cap)) out[n + j] = dg[(v >> (4 * (k - 1 - j))) & 15]; }
        n += k;
      }
    }
    else if(*f == 'c') NB_PUT((char)va_arg(ap, int));
    else if(*f == '%') NB_PUT('%');
    else OBL(0, "format conversion covered by the contract");
    f++;
  }
  if(out && (!bounded || cap > 0)) out[!bounded || n < cap ? n : cap - 1] = 0;
#undef NB_PUT
  return (int)n;
}
int sprintf(char *out, const char *f, ...) { va_list ap; va_start(ap, f); int r = nb_vfmt(out, 0, 0, f, ap); va_end(ap); return r; }
int snprintf(char *out, nb_u64 cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = nb_vfmt(cap ? out : 0, cap, 1, f, ap); va_end(ap); return r; }
