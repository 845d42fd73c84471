/*NB-UNIT
{ "src": "str.c", "props": ["C17"],
  "targets": ["str","strUnterminated","strGetContent","strSet","strCopy","strCopyRaw","strStripTrailingSlashes","strSplitPath","strIsEmpty","strIsEqual","strIsWhitespaceOnly","strIsDotElement","strPathContainsDotElements","strIsParentPath","strAppendPath"],
  "mode": {"h_parent":"P&B","h_equal":"P&B","h_white":"P&B","*":"PB"},
  "entries": ["h_copy","h_strip","h_split","h_equal","h_white","h_dot","h_parent","h_append"],
  "link": ["safe-math.c"],
  "cands": ["$u <= $p(StringView).length",
            "!(nb_i >= $u && nb_i < $p(StringView).length) || $p(StringView).content[nb_i] == '/'",
            "!(nb_i >= $u && nb_i < $p(StringView).length) || $p(StringView).content[nb_i] != '/'",
            "!(nb_i + 1 >= $u && nb_i + 1 < @$u) || $p(StringView).content[nb_i] == '/'",
            "!(nb_i >= $u && nb_i < $p(StringView).length && $p(StringView).content[nb_i] == '/') || ($u > 0 && $p(StringView).content[$u - 1] == '/')",
            "!(nb_i > $u && nb_i < $p(StringView).length && $p(StringView).content[nb_i] == '/') || $p(StringView).content[nb_i - 1] == '/'",
            "!(nb_i >= $u && nb_i < $p(StringView).length && $p(StringView).content[nb_i] == '/') || (nb_i > 0 && $p(StringView).content[nb_i - 1] == '/')",
            "!(nb_i + $u >= $p(StringView).length && nb_i < $p(StringView).length) || $p(StringView).content[nb_i] == '/'",
            "!(nb_i + $u >= $p(StringView).length && nb_i < $p(StringView).length) || $p(StringView).content[nb_i] != '/'",
            "$u == 0 || $p(StringView).content[$u - 1] == '/'",
            "!(nb_i < $u) || $p(StringView).content[nb_i] == ' ' || $p(StringView).content[nb_i] == '\\t'"],
  "assumes": ["memcmp/memcpy/strlen behave as specified by ISO C", "objects are smaller than 2^40 bytes"],
  "entry_props": {"h_split": ["C17", "C01", "C14", "C15"], "h_dot": ["C17", "C02", "C14"], "h_equal": ["C17", "C07", "C10", "C14", "C15", "C16"], "h_parent": ["C17", "C10"], "h_strip": ["C17", "C10", "C12", "C14", "C22"], "h_white": ["C17", "C14"], "h_copy": ["C17", "C18"]}
}
*/
//@MID
extern nb_u64 nb_i;
//@POST
//@include die.h
nb_u64 nb_i;   /* arbitrary watched index */
#ifdef NB_MODE_P
#define MAXLEN (1ul << 40)
#else
#define MAXLEN 5
#endif
//@include mem.h
static char *nb_bytes(nb_u64 n)
{
  char *p = malloc(n);
  ASSUME(p != 0);
#ifndef NB_MODE_P
  for(nb_u64 i = 0; i < n; i++) { nb_u8 c = nd_u8(); 
#ifdef NB_MODE_N
    static const char al[] = "/. a\t/."; if(c & 1) c = al[(c >> 1) % 7];
#endif
    p[i] = (char)c; }
#endif
  return p;
}
static nb_u64 nb_allocsize; static char *nb_allocated;
void *allocate(Allocator *a, size_t size)
{
  OBL(size <= MAXLEN * 2 + 2, "allocation size derived from the string lengths");
  nb_allocsize = size; nb_allocated = malloc(size); ASSUME(nb_allocated != 0);
  return nb_allocated;
}
/* arbitrary string view over exactly its own bytes (plus the terminator) */
static StringView nb_view(void)
{
  nb_u64 len = nd_le(MAXLEN); _Bool term = nd_bool();
  char *p = nb_bytes(len + term);
  if(term) { p[len] = 0;
#ifdef NB_MODE_P
  if(nb_i < len) ASSUME(p[nb_i] != 0);
#endif
  }
  return (StringView){ .content = p, .length = len, .is_terminated = term };
}
static Allocator *nb_a(void) { return (Allocator *)0; }
static void init(void) { nb_i = nd_le(MAXLEN * 2 + 2);
#ifdef NB_MODE_P
 nb_watch = nb_i;
#endif
}
void h_copy(void)
{
  init();
  StringView s = nb_view();
  StringView c = strCopy(s, nb_a());
  COVER("copied");
  OBL(c.length == s.length && c.is_terminated, "copy has the length and is terminated");
  OBL(nb_allocsize >= s.length + 1, "copy buffer large enough");
  OBL(c.content[c.length] == 0, "terminator");
  if(nb_i < s.length) OBL(c.content[nb_i] == s.content[nb_i], "copied byte");
  StringView k = s; strSet(&k, c);
  OBL(k.content == c.content && k.length == c.length && k.is_terminated == c.is_terminated, "strSet assigns");
  nb_allocated = 0;
  const char *raw = strGetContent(s, nb_a());
  if(s.is_terminated) OBL(raw == s.content && nb_allocated == 0, "terminated content is used directly");
  else { OBL(raw == nb_allocated && raw[s.length] == 0, "terminated copy"); if(nb_i < s.length) OBL(raw[nb_i] == s.content[nb_i], "copied byte"); }
  StringView u = strUnterminated(s.content, s.length);
  OBL(u.content == s.content && u.length == s.length && !u.is_terminated, "unterminated view");
  OBL(strIsEmpty(s) == (s.length == 0), "empty iff no bytes");
}
void h_strip(void)
{
  init();
  StringView s = nb_view();
  StringView r = strStripTrailingSlashes(s);
  COVER("stripped");
  OBL(r.content == s.content && r.length <= s.length, "prefix of the same string");
  OBL(r.length == 0 || r.content[r.length - 1] != '/', "no trailing slash left");
  if(nb_i >= r.length && nb_i < s.length) OBL(s.content[nb_i] == '/', "only slashes removed");
  OBL(!r.is_terminated || (s.is_terminated && r.length == s.length), "terminated only if nothing was cut");
  OBL(IMPLIES(s.is_terminated && r.length == s.length, r.is_terminated), "stays terminated if nothing was cut");
}
void h_split(void)
{
  init();
  StringView s = nb_view();
  PathSplit p = strSplitPath(s);
  COVER("split");
  nb_u64 t = p.tail.content - s.content;
  OBL(p.head.content == s.content && t <= s.length && t + p.tail.length == s.length, "head and tail are parts of the path");
  OBL(p.tail.is_terminated == s.is_terminated && !p.head.is_terminated, "termination of the parts");
  OBL(p.head.length == (t > 0 ? t - 1 : 0), "head ends before the split slash");
  if(t > 0) OBL(s.content[t - 1] == '/', "split at a slash");
  if(t > 1) OBL(p.head.content[p.head.length - 1] != '/' , "no slash directly before the split point");
  /* tail = slashes, then no slash: first byte after the run has no slash behind */
  if(nb_i > t && nb_i < s.length && s.content[nb_i] == '/') OBL(s.content[nb_i - 1] == '/', "slashes in the tail are only the remaining ones of the run");
  if(t == 0 && nb_i < s.length) OBL(s.content[nb_i] != '/', "no slash: everything is tail");
}
void h_equal(void)
{
  init();
  StringView a = nb_view(), b = nb_view();
  _Bool r = strIsEqual(a, b);
  COVER("compared");
  if(a.length != b.length) OBL(!r, "different lengths differ");
  else if(r) { if(nb_i < a.length) OBL(a.content[nb_i] == b.content[nb_i], "equal strings have equal bytes"); }
#ifndef NB_MODE_P
  else { _Bool d = 0; for(nb_u64 i = 0; i < a.length; i++) d |= a.content[i] != b.content[i]; OBL(d, "unequal strings of equal length differ in a byte"); }
#endif
  /* identity: same bytes compare equal */
  StringView c = a;
#ifndef NB_MODE_P
  OBL(strIsEqual(a, c), "reflexive");
#endif
}
void h_white(void)
{
  init();
  StringView s = nb_view();
  _Bool r = strIsWhitespaceOnly(s);
  COVER("checked");
  if(nb_i < s.length && r) OBL(s.content[nb_i] == ' ' || s.content[nb_i] == '\t', "whitespace only");
  if(s.length == 0) OBL(r, "empty is whitespace only");
  if(s.length == 1 && !r) OBL(s.content[0] != ' ' && s.content[0] != '\t', "not whitespace");
#ifndef NB_MODE_P
  _Bool o = 0; for(nb_u64 i = 0; i < s.length; i++) o |= s.content[i] != ' ' && s.content[i] != '\t';
  OBL(r == !o, "exactly whitespace");
#endif
}
#ifdef NB_MODE_P
/* contract of the recursive call: the path without its last element */
#endif
void h_dot(void)
{
  init();
  StringView s = nb_view();
  _Bool e = strIsDotElement(s);
  OBL(e == ((s.length == 1 && s.content[0] == '.') || (s.length == 2 && s.content[0] == '.' && s.content[1] == '.')), "dot element");
  COVER("element");
}
void h_parent(void)
{
  init();
  StringView a = nb_view(), b = nb_view();
  ASSUME(a.length == 0 || a.content[a.length - 1] != '/');
  _Bool r = strIsParentPath(a, b);
  COVER("checked");
  if(r) {
    OBL(b.length > a.length && b.content[a.length] == '/', "parent is followed by a slash");
    if(nb_i < a.length) OBL(a.content[nb_i] == b.content[nb_i], "parent is a prefix");
  }
#ifndef NB_MODE_P
  if(r) { _Bool more = 0; for(nb_u64 i = a.length; i < b.length; i++) more |= b.content[i] != '/'; OBL(more, "something follows the parent"); }
  else { _Bool pre = b.length > a.length && b.content[a.length] == '/', more = 0;
    for(nb_u64 i = 0; i < a.length && i < b.length; i++) pre &= a.content[i] == b.content[i];
    for(nb_u64 i = a.length; i < b.length; i++) more |= b.content[i] != '/';
    OBL(!(pre && more), "every true parent is recognised"); }
#endif
}
void h_append(void)
{
  init();
  StringView a = nb_view(), b = nb_view();
  StringView r = strAppendPath(a, b, nb_a());
  COVER("appended");
  OBL(r.length == a.length + 1 + b.length && r.is_terminated, "length of the joined path");
  OBL(nb_allocsize >= r.length + 1, "buffer large enough");
  OBL(r.content[a.length] == '/' && r.content[r.length] == 0, "one slash between the parts, terminated");
  if(nb_i < a.length) OBL(r.content[nb_i] == a.content[nb_i], "parent part");
  if(nb_i < b.length) OBL(r.content[a.length + 1 + nb_i] == b.content[nb_i], "name part");
}
