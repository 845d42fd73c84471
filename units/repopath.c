/*NB-UNIT
{ "src": "repository.c", "props": ["C05"],
  "targets": ["repoBuildRegularFilePath"],
  "entries": ["h_path","h_inject"],
  "nocut": ["*"],
  "link": ["safe-math.c"], "unwind": 66, "bunwind": 66, "timeout": 400,
  "flags": ["--slice-formula"],
  "assumes": ["sprintf/snprintf format hexadecimal numbers as specified by ISO C"],
  "entry_props": {"h_path": ["C05", "C03", "C12", "C13", "C18"], "h_inject": ["C05", "C12", "C13"]}
}
*/
//@POST
//@include die.h
//@include fmt.h
static char nb_area[80]; static nb_u64 nb_g; static nb_u64 X_cap; static char *X_buf;
void *CR_EnsureCapacity(void *p, size_t n) { OBL(p == 0, "buffer"); OBL(n > 0 && n <= 70, "size of the path"); X_cap = n; 
  nb_g = nd_le(79); nb_area[nb_g] = 77; X_buf = nb_area; return nb_area; }
static const char hx[] = "0123456789abcdef";
static unsigned digits(nb_u64 v) { unsigned k = 1; while(v > 15) { v >>= 4; k++; } return k; }
static RegularFileInfo nb_info(void)
{
  RegularFileInfo i;
  for(int k = 0; k < FILE_HASH_SIZE; k++) i.hash[k] = nd_u8();
  i.size = nd_u64(); i.slot = nd_u8(); i.permission_bits = nd_u32(); i.modification_time = nd_u64();
  return i;
}
/* the specified name: first hash byte as two directory levels, then the rest, size and slot */
static void spec(char *o, const RegularFileInfo *i)
{
  unsigned n = 0;
  o[n++] = hx[i->hash[0] >> 4]; o[n++] = '/'; o[n++] = hx[i->hash[0] & 15]; o[n++] = hx[i->hash[1] >> 4]; o[n++] = '/'; o[n++] = hx[i->hash[1] & 15];
  for(int k = 2; k < FILE_HASH_SIZE; k++) { o[n++] = hx[i->hash[k] >> 4]; o[n++] = hx[i->hash[k] & 15]; }
  o[n++] = 'x';
  unsigned d = digits(i->size);
  for(unsigned k = 0; k < d; k++) o[n++] = hx[(i->size >> (4 * (d - 1 - k))) & 15];
  o[n++] = 'x';
  d = digits(i->slot);
  for(unsigned k = 0; k < d; k++) o[n++] = hx[(i->slot >> (4 * (d - 1 - k))) & 15];
  o[n++] = 0;
}
void h_path(void)
{
  RegularFileInfo i = nb_info();
  char *p = 0;
  repoBuildRegularFilePath(&p, &i);
  COVER("path built");
  OBL(p == X_buf, "buffer returned");
  if(nb_g >= X_cap) OBL(nb_area[nb_g] == 77, "nothing is written behind the buffer");
  char want[70]; spec(want, &i);
  unsigned len = 42 + 1 + digits(i.size) + 1 + digits(i.slot);
  OBL(X_cap >= len + 1, "buffer large enough");
  for(unsigned k = 0; k < 64; k++) if(k <= len) OBL(p[k] == want[k], "path is determined by hash, size and slot");
}
/* lemma: the specified name is injective */
void h_inject(void)
{
  RegularFileInfo a = nb_info(), b = nb_info();
  char x[70], y[70]; spec(x, &a); spec(y, &b);
  _Bool same = 1;
  for(unsigned k = 0; k < 64; k++) { if(x[k] != y[k]) { same = 0; break; } if(x[k] == 0) break; }
  if(same) {
    COVER("same path");
    for(int k = 0; k < FILE_HASH_SIZE; k++) OBL(a.hash[k] == b.hash[k], "same path only for the same hash");
    OBL(a.size == b.size, "same path only for the same size");
    OBL(a.slot == b.slot, "same path only for the same slot");
  }
}
