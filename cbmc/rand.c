/* CBMC code contracts for the pseudo-random generator: enforced on the real functions of common_integer.c. */
#include "common_integer.c"
#define FR(p) __CPROVER_is_fresh (p, sizeof (*(p)))
#define NZ(s) (((s)->randtab[0] | (s)->randtab[1]) != 0)
#define OZ(s) ((__CPROVER_old ((s)->randtab[0]) | __CPROVER_old ((s)->randtab[1])) != 0)

UINT intRandVal3 (IntRandState * restrict const statptr)
__CPROVER_requires (FR (statptr))
__CPROVER_ensures (OZ (statptr) ==> NZ (statptr))
__CPROVER_ensures (statptr->randtab[0] == __CPROVER_old (statptr->randtab[1]))
__CPROVER_ensures (__CPROVER_return_value == (UINT) (statptr->randtab[0] + statptr->randtab[1]))
__CPROVER_assigns (*statptr);
UINT intRandVal (IntRandContext * const contptr, UINT randmax)
__CPROVER_requires (FR (contptr) && contptr->flagval != 0 && randmax > 0)
__CPROVER_ensures (__CPROVER_return_value < randmax)
__CPROVER_ensures (contptr->statdat.randtab[0] == __CPROVER_old (contptr->statdat.randtab[1]))
__CPROVER_ensures (OZ (&contptr->statdat) ==> NZ (&contptr->statdat))
__CPROVER_assigns (contptr->statdat);
UINT intRandVal2 (IntRandContext * const contptr)
__CPROVER_requires (FR (contptr))
__CPROVER_ensures (__CPROVER_return_value == (UINT) (contptr->statdat.randtab[0] + contptr->statdat.randtab[1]))
__CPROVER_ensures (OZ (&contptr->statdat) ==> NZ (&contptr->statdat))
__CPROVER_assigns (contptr->statdat);
void intRandProc (IntRandContext * const randptr, const int procnum)
__CPROVER_requires (FR (randptr))
__CPROVER_ensures (randptr->procval == procnum)
__CPROVER_assigns (randptr->procval);
void intRandReset (IntRandContext * const randptr)
__CPROVER_requires (FR (randptr))
__CPROVER_ensures (randptr->flagval != 0 && NZ (&randptr->statdat))
__CPROVER_assigns (randptr->flagval, randptr->statdat);
void intRandSeed (IntRandContext * const randptr, INT seedval)
__CPROVER_requires (FR (randptr))
__CPROVER_ensures (randptr->flagval != 0 && NZ (&randptr->statdat))
__CPROVER_ensures (randptr->seedval == (UINT64) seedval)
__CPROVER_assigns (randptr->flagval, randptr->seedval, randptr->statdat);
void intRandSpawn (IntRandContext * const roldptr, const int procnum, IntRandContext * const rnewptr)
__CPROVER_requires (FR (roldptr) && FR (rnewptr))
__CPROVER_ensures (rnewptr->flagval != 0 && NZ (&rnewptr->statdat) && rnewptr->procval == procnum)
__CPROVER_assigns (*rnewptr);
void intRandInit (IntRandContext * const contptr)
__CPROVER_requires (FR (contptr))
__CPROVER_ensures (contptr->flagval != 0)
__CPROVER_ensures (__CPROVER_old (contptr->flagval) != 0 ==> contptr->statdat.randtab[0] == __CPROVER_old (contptr->statdat.randtab[0]) && contptr->statdat.randtab[1] == __CPROVER_old (contptr->statdat.randtab[1]) && contptr->seedval == __CPROVER_old (contptr->seedval))
__CPROVER_assigns (contptr->flagval, contptr->seedval, contptr->statdat);

#define H(n,...) void h_##n (void) { __VA_ARGS__; }
IntRandState *s_; IntRandContext *c_, *d_; UINT m_; INT v_; int p_;
H (intRandVal3, intRandVal3 (s_))
H (intRandVal, intRandVal (c_, m_))
H (intRandVal2, intRandVal2 (c_))
H (intRandProc, intRandProc (c_, p_))
H (intRandReset, intRandReset (c_))
H (intRandSeed, intRandSeed (c_, v_))
H (intRandSpawn, intRandSpawn (c_, p_, d_))
H (intRandInit, intRandInit (c_))
