/*NB-UNIT
{ "src": "third-party/CRegion/safe-math.c", "props": ["C18","C23"], "mode": "PB",
  "targets": ["CR_SafeAdd","CR_SafeMultiply"],
  "entries": ["h_add","h_mul"], "timeout": 280,
  "pflags": {"h_mul": ["--cvc5", "--external-smt2-solver", "$VERIF/tools/cvc5int.sh"]},
  "assumes": []
}
*/
//@POST
//@include die.h
typedef unsigned __int128 nb_u128;
void h_add(void)
{
  nb_u64 a = nd_u64(), b = nd_u64();
  nb_u128 s = (nb_u128)a + b;
  nb_may_die = s > (nb_u128)~0ul;
  nb_u64 r = CR_SafeAdd(a, b);
  COVER("returned");
  OBL(r == s, "sum is exact");
}
void h_mul(void)
{
  nb_u64 a = nd_u64(), b = nd_u64();
  nb_u64 p;
  _Bool ovf = __builtin_mul_overflow(a, b, &p);
  nb_may_die = ovf;
  nb_u64 r = CR_SafeMultiply(a, b);
  COVER("returned");
  OBL(!ovf && r == p, "product is exact");
}
