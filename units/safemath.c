/*NB-UNIT
{ "src": "safe-math.c", "props": ["C18"], "mode": "PB",
  "targets": ["sSizeAdd","sSizeMul","sUint64Add","sUint64Mul","sUint64GetDifference"],
  "entries": ["h_add","h_mul","h_mul64","h_diff"], "timeout": 280,
  "pflags": {"h_mul": ["--cvc5", "--external-smt2-solver", "$VERIF/tools/cvc5int.sh"], "h_mul64": ["--cvc5", "--external-smt2-solver", "$VERIF/tools/cvc5int.sh"]},
  "assumes": []
}
*/
//@POST
//@include die.h
typedef unsigned __int128 nb_u128;
void h_add(void)
{
  nb_u64 a = nd_u64(), b = nd_u64();
  nb_u128 s = (nb_u128)a + b;
  nb_may_die = s > (nb_u128)~0ul;
  nb_u64 r = nd_bool() ? sSizeAdd(a, b) : sUint64Add(a, b);
  COVER("returned");
  OBL(r == s, "sum is exact");
}
void h_mul(void)
{
  nb_u64 a = nd_u64(), b = nd_u64();
  nb_u64 p;
  _Bool ovf = __builtin_mul_overflow(a, b, &p);
  nb_may_die = ovf;
  nb_u64 r = sSizeMul(a, b);
  COVER("returned");
  OBL(!ovf && r == p, "product is exact");
}
void h_mul64(void)
{
  nb_u64 a = nd_u64(), b = nd_u64();
  nb_u64 p;
  _Bool ovf = __builtin_mul_overflow(a, b, &p);
  nb_may_die = ovf;
  nb_u64 r = sUint64Mul(a, b);
  COVER("returned");
  OBL(!ovf && r == p, "product is exact");
}
void h_diff(void)
{
  nb_u64 a = nd_u64(), b = nd_u64();
  nb_u64 r = sUint64GetDifference(a, b);
  COVER("returned");
  OBL(r == (a < b ? b - a : a - b), "difference is exact");
}
