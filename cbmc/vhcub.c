/* CBMC code contracts for variable-sized hypercube targets: enforced on the real functions of arch_vhcub.c. */
#include "arch_vhcub.c"
Anum vp_t, vp_x;                                  /* arbitrary processor numbers (nondeterministic) */
#define WFV(d)        ((d)->termlvl >= 0 && (d)->termlvl <= 30 && ((d)->termnum >> (d)->termlvl) == 1)
/* number of bits set in x */
static Anum pop (unsigned x) {
  return ((Anum) (((x >> 0) & 1) + ((x >> 1) & 1) + ((x >> 2) & 1) + ((x >> 3) & 1) + ((x >> 4) & 1) + ((x >> 5) & 1) + ((x >> 6) & 1) + ((x >> 7) & 1) + ((x >> 8) & 1) + ((x >> 9) & 1) + ((x >> 10) & 1) + ((x >> 11) & 1) + ((x >> 12) & 1) + ((x >> 13) & 1) + ((x >> 14) & 1) + ((x >> 15) & 1) + ((x >> 16) & 1) + ((x >> 17) & 1) + ((x >> 18) & 1) + ((x >> 19) & 1) + ((x >> 20) & 1) + ((x >> 21) & 1) + ((x >> 22) & 1) + ((x >> 23) & 1) + ((x >> 24) & 1) + ((x >> 25) & 1) + ((x >> 26) & 1) + ((x >> 27) & 1) + ((x >> 28) & 1) + ((x >> 29) & 1) + ((x >> 30) & 1)));
}
#define FR(p) __CPROVER_is_fresh (p, sizeof (*(p)))


ArchDomNum archVhcubDomNum (const ArchVhcub * const archptr, const ArchVhcubDom * const domptr)
__CPROVER_requires (FR (domptr) && WFV (domptr))
__CPROVER_ensures (__CPROVER_return_value == domptr->termnum)
__CPROVER_assigns ();
int archVhcubDomTerm (const ArchVhcub * const archptr, ArchVhcubDom * const domptr, const ArchDomNum domnum)
__CPROVER_requires (FR (domptr) && domnum >= -1)
__CPROVER_ensures (__CPROVER_return_value == ((domnum > 0) ? 0 : (domnum == 0) ? 2 : 1))
__CPROVER_ensures (__CPROVER_return_value == 0 ==> (WFV (domptr) && domptr->termnum == domnum))
__CPROVER_assigns (*domptr);
Anum archVhcubDomDist (const ArchVhcub * const archptr, const ArchVhcubDom * const dom0ptr, const ArchVhcubDom * const dom1ptr)
__CPROVER_requires (FR (dom0ptr) && FR (dom1ptr) && WFV (dom0ptr) && WFV (dom1ptr))
__CPROVER_ensures (dom0ptr->termlvl == dom1ptr->termlvl ==> __CPROVER_return_value == pop (dom0ptr->termnum ^ dom1ptr->termnum))
__CPROVER_ensures (dom0ptr->termlvl > dom1ptr->termlvl ==> __CPROVER_return_value == pop ((dom0ptr->termnum >> (dom0ptr->termlvl - dom1ptr->termlvl)) ^ dom1ptr->termnum) + (dom0ptr->termlvl - dom1ptr->termlvl) / 2)
__CPROVER_ensures (dom0ptr->termlvl < dom1ptr->termlvl ==> __CPROVER_return_value == pop ((dom1ptr->termnum >> (dom1ptr->termlvl - dom0ptr->termlvl)) ^ dom0ptr->termnum) + (dom1ptr->termlvl - dom0ptr->termlvl) / 2)
__CPROVER_assigns ();
int archVhcubDomFrst (const ArchVhcub * const archptr, ArchVhcubDom * restrict const domptr)
__CPROVER_requires (FR (domptr))
__CPROVER_ensures (__CPROVER_return_value == 0 && WFV (domptr) && domptr->termlvl == 0)
__CPROVER_assigns (*domptr);
int archVhcubDomBipart (const ArchVhcub * const archptr, const ArchVhcubDom * const domptr, ArchVhcubDom * restrict const dom0ptr, ArchVhcubDom * restrict const dom1ptr)
__CPROVER_requires (FR (domptr) && FR (dom0ptr) && FR (dom1ptr) && WFV (domptr) && domptr->termlvl < 30)
__CPROVER_ensures (__CPROVER_return_value == 0 && WFV (dom0ptr) && WFV (dom1ptr) && dom0ptr->termnum != dom1ptr->termnum && dom0ptr->termlvl == domptr->termlvl + 1 && dom1ptr->termlvl == domptr->termlvl + 1)
__CPROVER_ensures (dom0ptr->termnum / 2 == domptr->termnum && dom1ptr->termnum / 2 == domptr->termnum)
__CPROVER_assigns (*dom0ptr, *dom1ptr);
int archVhcubDomIncl (const ArchVhcub * const archptr, const ArchVhcubDom * const dom0ptr, const ArchVhcubDom * const dom1ptr)
__CPROVER_requires (FR (dom0ptr) && FR (dom1ptr) && WFV (dom0ptr) && WFV (dom1ptr))
__CPROVER_ensures ((__CPROVER_return_value != 0) == (dom1ptr->termlvl >= dom0ptr->termlvl && (dom1ptr->termnum >> (dom1ptr->termlvl - dom0ptr->termlvl)) == dom0ptr->termnum))
__CPROVER_assigns ();

#define H(n,...) void h_##n (void) { __VA_ARGS__; }
ArchVhcub *V_; ArchVhcubDom *v_, *v0_, *v1_; ArchDomNum n_;
H (archVhcubDomNum, archVhcubDomNum (V_, v_))
H (archVhcubDomTerm, archVhcubDomTerm (V_, v_, n_))
H (archVhcubDomDist, archVhcubDomDist (V_, v0_, v1_))
H (archVhcubDomFrst, archVhcubDomFrst (V_, v_))
H (archVhcubDomBipart, archVhcubDomBipart (V_, v_, v0_, v1_))
H (archVhcubDomIncl, archVhcubDomIncl (V_, v0_, v1_))
