/* contract of strAppendPath() as proved in units/str.c (h_append) */
static StringView NBC_strAppendPath(StringView a, StringView b, Allocator *al)
{
  StringView r = { .content = 0, .length = a.length + 1 + b.length, .is_terminated = 1 };
  char *s = allocate(al, a.length + 1 + b.length + 1);
#ifdef NB_MODE_P
  if(nb_i < a.length) s[nb_i] = a.content[nb_i];
  s[a.length] = '/';
  if(nb_i < b.length) s[a.length + 1 + nb_i] = b.content[nb_i];
#else
  for(nb_u64 i = 0; i < a.length; i++) s[i] = a.content[i];
  s[a.length] = '/';
  for(nb_u64 i = 0; i < b.length; i++) s[a.length + 1 + i] = b.content[i];
#endif
  s[r.length] = 0;
  strSet(&r, (StringView){ .content = s, .length = r.length, .is_terminated = 1 });
  return r;
}
