/* assignment of a StringView (its members are const) */
struct nb_sv { const char *c; nb_u64 l; _Bool t; };
#define SV_SET(v, C, L, T) (*(struct nb_sv *)&(v) = (struct nb_sv){ (C), (L), (T) })
#define SV_CPY(v, w) (*(struct nb_sv *)&(v) = *(struct nb_sv *)&(w))
