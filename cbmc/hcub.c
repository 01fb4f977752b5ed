/* CBMC code contracts for the hypercube targets: enforced on the real functions of arch_hcub.c. */
#include "arch_hcub.c"
Anum vp_t, vp_x;                                  /* arbitrary processor numbers (nondeterministic) */
#define WFA(a)        ((a)->dimnnbr >= 1 && (a)->dimnnbr <= 30)
#define WFD(a,d)      ((d)->dimncur >= 0 && (d)->dimncur <= (a)->dimnnbr && (d)->bitsset >= 0 && ((d)->bitsset >> (a)->dimnnbr) == 0 && ((d)->bitsset & ((1 << (d)->dimncur) - 1)) == 0)
#define MEMB(d,t)     ((t) >= 0 && ((t) >> (d)->dimncur) == ((d)->bitsset >> (d)->dimncur))
/* number of bits set in x */
static Anum pop (unsigned x) {
  return ((Anum) (((x >> 0) & 1) + ((x >> 1) & 1) + ((x >> 2) & 1) + ((x >> 3) & 1) + ((x >> 4) & 1) + ((x >> 5) & 1) + ((x >> 6) & 1) + ((x >> 7) & 1) + ((x >> 8) & 1) + ((x >> 9) & 1) + ((x >> 10) & 1) + ((x >> 11) & 1) + ((x >> 12) & 1) + ((x >> 13) & 1) + ((x >> 14) & 1) + ((x >> 15) & 1) + ((x >> 16) & 1) + ((x >> 17) & 1) + ((x >> 18) & 1) + ((x >> 19) & 1) + ((x >> 20) & 1) + ((x >> 21) & 1) + ((x >> 22) & 1) + ((x >> 23) & 1) + ((x >> 24) & 1) + ((x >> 25) & 1) + ((x >> 26) & 1) + ((x >> 27) & 1) + ((x >> 28) & 1) + ((x >> 29) & 1) + ((x >> 30) & 1)));
}
#define FR(p) __CPROVER_is_fresh (p, sizeof (*(p)))

ArchDomNum archHcubDomNum (const ArchHcub * const archptr, const ArchHcubDom * const domnptr)
__CPROVER_requires (FR (archptr) && FR (domnptr) && WFA (archptr) && WFD (archptr, domnptr))
__CPROVER_ensures (MEMB (domnptr, __CPROVER_return_value))
__CPROVER_ensures (MEMB (domnptr, vp_t) ==> __CPROVER_return_value <= vp_t)
__CPROVER_assigns ();
int archHcubDomTerm (const ArchHcub * const archptr, ArchHcubDom * const domnptr, const ArchDomNum domnnum)
__CPROVER_requires (FR (archptr) && FR (domnptr) && WFA (archptr) && domnnum >= 0)
__CPROVER_ensures (__CPROVER_return_value == ((domnnum < (1 << archptr->dimnnbr)) ? 0 : 1))
__CPROVER_ensures (__CPROVER_return_value == 0 ==> (WFD (archptr, domnptr) && domnptr->dimncur == 0 && domnptr->bitsset == domnnum))
__CPROVER_assigns (*domnptr);
Anum archHcubDomSize (const ArchHcub * const archptr, const ArchHcubDom * const domnptr)
__CPROVER_requires (FR (archptr) && FR (domnptr) && WFA (archptr) && WFD (archptr, domnptr))
__CPROVER_ensures (__CPROVER_return_value == ((Anum) 1 << domnptr->dimncur))
__CPROVER_assigns ();
Anum archHcubDomDist (const ArchHcub * const archptr, const ArchHcubDom * const dom0ptr, const ArchHcubDom * const dom1ptr)
__CPROVER_requires (FR (archptr) && FR (dom0ptr) && FR (dom1ptr) && WFA (archptr) && WFD (archptr, dom0ptr) && WFD (archptr, dom1ptr))
__CPROVER_ensures (__CPROVER_return_value == pop (((unsigned) (dom0ptr->bitsset ^ dom1ptr->bitsset)) >> ((dom0ptr->dimncur > dom1ptr->dimncur) ? dom0ptr->dimncur : dom1ptr->dimncur)) + ((dom0ptr->dimncur > dom1ptr->dimncur) ? dom0ptr->dimncur - dom1ptr->dimncur : dom1ptr->dimncur - dom0ptr->dimncur) / 2)
__CPROVER_assigns ();
int archHcubDomFrst (const ArchHcub * const archptr, ArchHcubDom * restrict const domnptr)
__CPROVER_requires (FR (archptr) && FR (domnptr) && WFA (archptr))
__CPROVER_ensures (__CPROVER_return_value == 0 && WFD (archptr, domnptr))
__CPROVER_ensures ((vp_t >= 0 && vp_t < (1 << archptr->dimnnbr)) == MEMB (domnptr, vp_t))
__CPROVER_assigns (*domnptr);
int archHcubDomBipart (const ArchHcub * const archptr, const ArchHcubDom * const domnptr, ArchHcubDom * restrict const dom0ptr, ArchHcubDom * restrict const dom1ptr)
__CPROVER_requires (FR (archptr) && FR (domnptr) && FR (dom0ptr) && FR (dom1ptr) && WFA (archptr) && WFD (archptr, domnptr))
__CPROVER_ensures (__CPROVER_return_value == ((domnptr->dimncur > 0) ? 0 : 1))
__CPROVER_ensures (__CPROVER_return_value == 0 ==> (WFD (archptr, dom0ptr) && WFD (archptr, dom1ptr) && dom0ptr->dimncur < domnptr->dimncur && dom1ptr->dimncur < domnptr->dimncur))
__CPROVER_ensures (__CPROVER_return_value == 0 ==> (MEMB (domnptr, vp_t) == (MEMB (dom0ptr, vp_t) || MEMB (dom1ptr, vp_t))))
__CPROVER_ensures (__CPROVER_return_value == 0 ==> ! (MEMB (dom0ptr, vp_t) && MEMB (dom1ptr, vp_t)))
__CPROVER_assigns (*dom0ptr, *dom1ptr);
int archHcubDomIncl (const ArchHcub * const archptr, const ArchHcubDom * const dom0ptr, const ArchHcubDom * const dom1ptr)
__CPROVER_requires (FR (archptr) && FR (dom0ptr) && FR (dom1ptr) && WFA (archptr) && WFD (archptr, dom0ptr) && WFD (archptr, dom1ptr))
__CPROVER_ensures ((__CPROVER_return_value != 0) ==> (MEMB (dom1ptr, vp_t) ==> MEMB (dom0ptr, vp_t)))
__CPROVER_ensures ((__CPROVER_return_value == 0) ==> (! MEMB (dom0ptr, dom1ptr->bitsset) || ! MEMB (dom0ptr, dom1ptr->bitsset | ((1 << dom1ptr->dimncur) - 1))))
__CPROVER_assigns ();

#define H(n,...) void h_##n (void) { __VA_ARGS__; }
ArchHcub *A_; ArchHcubDom *d_, *d0_, *d1_; ArchDomNum n_;
H (archHcubDomNum, archHcubDomNum (A_, d_))
H (archHcubDomTerm, archHcubDomTerm (A_, d_, n_))
H (archHcubDomSize, archHcubDomSize (A_, d_))
H (archHcubDomDist, archHcubDomDist (A_, d0_, d1_))
H (archHcubDomFrst, archHcubDomFrst (A_, d_))
H (archHcubDomBipart, archHcubDomBipart (A_, d_, d0_, d1_))
H (archHcubDomIncl, archHcubDomIncl (A_, d0_, d1_))
