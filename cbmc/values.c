/* CBMC: the options of contexts, on the real functions of common_values.c and library_context.c. */
#include "library_context.c"
#include "common_values.h"
void SCOTCH_errorPrint (const char * const f, ...) { }
typedef struct { INT vinttab[CONTEXTOPTIONNUMNBR]; double vdbltab[CONTEXTOPTIONDBLNBR + 1]; } VpData;
#define D CONTEXTOPTIONNUMDETERMINISTIC
#define F CONTEXTOPTIONNUMRANDOMFIXEDSEED
#define C(x,t) __CPROVER_assert (x, t)
int vp_own, vp_opt, vp_bad; SCOTCH_Num vp_val; VpData vp_ini, vp_cur;

/* any option, any value, a context that still uses the default values or has its own */
void vp_options (void)
__CPROVER_requires (1)
__CPROVER_ensures (1)
__CPROVER_assigns ();
void vp_options (void) {
  Context c; ValuesContext v; VpData ini, cur; SCOTCH_Num d, f, x; int o;
  SCOTCH_Context * const l = (SCOTCH_Context *) &c;
  c.thrdptr = NULL; c.randptr = NULL; c.valuptr = &v;
  ini = vp_ini; cur = vp_cur;
  v.dainptr = &ini; v.dataptr = vp_own ? &cur : &ini; v.datasiz = sizeof (VpData); v.vintnbr = CONTEXTOPTIONNUMNBR; v.ointval = 0; v.vdblnbr = CONTEXTOPTIONDBLNBR; v.odblval = (size_t) ((byte *) ini.vdbltab - (byte *) &ini);
  d = vp_own ? cur.vinttab[D] : ini.vinttab[D]; f = vp_own ? cur.vinttab[F] : ini.vinttab[F];
  C (SCOTCH_contextOptionGetNum (l, D, &x) == 0 && x == d, "option value returned (deterministic)");
  C (SCOTCH_contextOptionGetNum (l, F, &x) == 0 && x == f, "option value returned (fixed seed)");
  C ((vp_bad >= 0 && vp_bad < CONTEXTOPTIONNUMNBR) || SCOTCH_contextOptionGetNum (l, vp_bad, &x) != 0, "unknown option refused");
  o = SCOTCH_contextOptionSetNum (l, vp_opt, vp_val);
  C ((vp_opt == D || vp_opt == F) || o != 0, "unknown option not set");
  if (o == 0) {
    C (SCOTCH_contextOptionGetNum (l, vp_opt, &x) == 0 && x == (vp_val != 0), "option set to the value given");
    if (vp_opt == D) C (SCOTCH_contextOptionGetNum (l, F, &x) == 0 && x == (vp_val != 0 ? 1 : f), "deterministic behaviour implies a fixed seed; nothing else is changed");
    if (vp_opt == F) C (SCOTCH_contextOptionGetNum (l, D, &x) == 0 && x == d, "the other option is kept");
  }
  C (ini.vinttab[D] == vp_ini.vinttab[D] && ini.vinttab[F] == vp_ini.vinttab[F], "default values are never modified");
}
void h_vp_options (void) { vp_options (); }
