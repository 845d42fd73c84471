/* contract of die()/dieErrno(): never return. A unit sets nb_may_die to say
   when ending with an error message is the allowed outcome. */
#ifndef NB_ON_DIE
#define NB_ON_DIE OBL(nb_may_die, "error exit only where the property allows it")
#endif
static _Bool nb_may_die = 0;
void die(const char *format, ...) { NB_ON_DIE; NB_STOP("die"); __builtin_unreachable(); }
void dieErrno(const char *format, ...) { NB_ON_DIE; NB_STOP("dieErrno"); __builtin_unreachable(); }
