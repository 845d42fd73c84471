/*NB-UNIT
{ "src": "third-party/CRegion/global-region.c", "props": ["C23"],
  "targets": ["CR_GetGlobalRegion"], "entries": ["p_global"], "mode": "P", "unwind": 4, "timeout": 100,
  "assumes": ["CR_RegionNew() as proved in units/region.c"],
  "entry_props": {"p_global": ["C23", "C19"]}
}
*/
//@POST
#define NB_ON_DIE OBL(nb_may_die, "no error exit")
//@include die.h
static struct CR_Region { int x; } reg; static int n;
CR_Region *CR_RegionNew(void) { OBL(n == 0, "one global region"); n++; if(nd_bool()) { nb_may_die = 1; die(""); } return &reg; }
void p_global(void) { n = 0; CR_Region *a = CR_GetGlobalRegion(); OBL(a == &reg, "live region"); OBL(CR_GetGlobalRegion() == a && CR_GetGlobalRegion() == a && n == 1, "always the same region"); COVER("global"); }
