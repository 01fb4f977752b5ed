/* Executable contract of target architectures. Compile with -DVP_ARCH_<FAMILY>. */
#include "vp.h"
#include "arch.h"
#include "scotch.h"
#undef archDomNum
#undef archDomTerm
#undef archDomSize
#undef archDomWght
#undef archDomDist
#undef archDomFrst
#undef archDomBipart
#undef archDomIncl
#define NMAX 600
#define CLS(f) (A->clasptr->f)
#define D2(d) ((union ArchDomDummy_ *) &(d)->data)
#define AD ((union ArchDummy_ *) &A->data)
static Arch *A;
static Anum aNum (const ArchDom *d) { return CLS (domNum) (AD, D2 (d)); }
static int aTerm (ArchDom *d, Anum n) { return CLS (domTerm) (AD, D2 (d), n); }
static Anum aSize (const ArchDom *d) { return CLS (domSize) (AD, D2 (d)); }
static Anum aWght (const ArchDom *d) { return CLS (domWght) (AD, D2 (d)); }
static Anum aDist (const ArchDom *a, const ArchDom *b) { return CLS (domDist) (AD, D2 (a), D2 (b)); }
static int aFrst (ArchDom *d) { return CLS (domFrst) (AD, D2 (d)); }
static int aBip (const ArchDom *d, ArchDom *a, ArchDom *b) { return CLS (domBipart) (AD, D2 (d), D2 (a), D2 (b)); }
static int aIncl (const ArchDom *a, const ArchDom *b) { return CLS (domIncl) (AD, D2 (a), D2 (b)); }

typedef struct { ArchDom d; int l, r, par, lo, hi; int depth; } Nod; /* leaves of the node: leaf[lo..hi-1] */
static Nod nod[2 * NMAX + 2]; static int nodn;
static int leaf[NMAX + 1], leafn;          /* node index */
static Anum lnum[NMAX + 1];
static Anum nterm;

static int explore (const ArchDom *d, int par, int depth, int maxdepth) {
  int k = nodn ++; ArchDom a, b; int r;
  VP_ASSERT (nodn <= 2 * nterm, "bipartitioning yields more than %ld terminal domains", (long) nterm);
  nod[k].d = *d; nod[k].par = par; nod[k].l = nod[k].r = -1; nod[k].lo = leafn; nod[k].depth = depth;
  memset (&a, 0x5A, sizeof (a)); memset (&b, 0xA5, sizeof (b));
  r = (depth < maxdepth) ? aBip (d, &a, &b) : 1;
  VP_ASSERT (r == 0 || r == 1, "bipartition returns %d", r);
  if (r == 0) { nod[k].l = explore (&a, k, depth + 1, maxdepth); nod[k].r = explore (&b, k, depth + 1, maxdepth); }
  else { VP_ASSERT (leafn < nterm, "too many terminal domains"); leaf[leafn ++] = k; }
  nod[k].hi = leafn;
  return (k);
}
static void loadtext (Arch *a, const char *t) {
  FILE *f = fmemopen ((void *) t, strlen (t), "r");
  archInit (a); vp_errs = 0;
  VP_ASSERT (archLoad (a, f) == 0, "valid architecture description rejected: %s", vp_lasterr);
  fclose (f);
}
static Anum (*refdist) (Anum, Anum);
static Anum (*refwght) (Anum);
static int minlabel = 1;                   /* domain number is the smallest terminal number in the domain */
static int ident = 1;                      /* terminals come out numbered 0..n-1 */
static void same (const ArchDom *a, const ArchDom *b, const char *w) {
  int j;
  VP_ASSERT (aSize (a) == aSize (b) && aWght (a) == aWght (b) && aNum (a) == aNum (b), "%s: size, weight or number differs (%ld %ld, %ld %ld, %ld %ld)", w, (long) aSize (a), (long) aSize (b), (long) aWght (a), (long) aWght (b), (long) aNum (a), (long) aNum (b));
  VP_ASSERT (aIncl (a, b) && aIncl (b, a), "%s: not mutually included", w);
  for (j = 0; j < leafn; j ++) VP_ASSERT (aDist (a, &nod[leaf[j]].d) == aDist (b, &nod[leaf[j]].d), "%s: distance differs", w);
}
static void domsaveload (const ArchDom *d) {
  char buf[512]; FILE *f; ArchDom b; memset (buf, 0, sizeof (buf)); memset (&b, 0x3C, sizeof (b));
  f = fmemopen (buf, sizeof (buf) - 1, "w"); VP_ASSERT (CLS (domSave) (AD, D2 (d), f) == 0, "domain not saved"); fclose (f);
  f = fmemopen (buf, strlen (buf), "r"); VP_ASSERT (CLS (domLoad) (AD, D2 (&b), f) == 0, "saved domain '%s' not loaded", buf); fclose (f);
  same (d, &b, "domain read back");
}
static void matching (void) {
  ArchMatch m; ArchCoarsenMulti *mt; Anum fine = nterm, c, i; int steps = 0; static char seen[NMAX + 1];
  if (! CLS (matchInit)) return;
  memset (&m, 0x77, sizeof (m));
  VP_ASSERT (CLS (matchInit) ((union ArchMatchDummy_ *) &m.data, AD) == 0, "matching initialisation failed");
  while (fine > 1) {
    VP_ASSERT (steps ++ < 300, "matching does not progress");
    c = CLS (matchMate) ((union ArchMatchDummy_ *) &m.data, &mt);
    VP_ASSERT (c >= 1 && c < fine && 2 * c >= fine, "matching of %ld vertices yields %ld", (long) fine, (long) c);
    memset (seen, 0, fine);
    for (i = 0; i < c; i ++) {
      Anum a = mt[i].vertnum[0], b = mt[i].vertnum[1];
      VP_ASSERT (a >= 0 && a < fine && b >= 0 && b < fine, "mate out of range");
      VP_ASSERT (! seen[a], "fine vertex matched twice"); seen[a] = 1;
      if (a != b) { VP_ASSERT (! seen[b], "fine vertex matched twice"); seen[b] = 1; }
    }
    for (i = 0; i < fine; i ++) VP_ASSERT (seen[i], "fine vertex %ld in no multinode", (long) i);
    fine = c;
  }
  VP_ASSERT (CLS (matchMate) ((union ArchMatchDummy_ *) &m.data, &mt) < 0, "matching of a single vertex not refused");
  CLS (matchExit) ((union ArchMatchDummy_ *) &m.data);
}
static void dotree (Anum n) {
  ArchDom r; int i, j, k; Anum s;
  nterm = n; nodn = leafn = 0;
  VP_ASSERT (n <= NMAX, "harness bound");
  VP_ASSERT (aFrst (&r) == 0, "first domain");
  explore (&r, -1, 0, 100000);
  VP_ASSERT (leafn == n, "%d terminal domains instead of %ld", leafn, (long) n);
  for (i = 0; i < n; i ++) lnum[i] = aNum (&nod[leaf[i]].d);
  { static char seen[NMAX]; memset (seen, 0, n); for (i = 0; i < n; i ++) { if (! ident) continue; VP_ASSERT (lnum[i] >= 0 && lnum[i] < n && ! seen[lnum[i]], "terminal number %ld bad or repeated", (long) lnum[i]); seen[lnum[i]] = 1; } }
  for (k = 0; k < nodn; k ++) {
    const ArchDom *d = &nod[k].d; Anum mn = 0x7FFFFFFF; int in = 0;
    VP_ASSERT (aSize (d) == nod[k].hi - nod[k].lo, "domain of %d terminals has size %ld", nod[k].hi - nod[k].lo, (long) aSize (d));
    for (s = 0, j = nod[k].lo; j < nod[k].hi; j ++) { Anum w = refwght ? refwght (lnum[j]) : 1; s += w; if (lnum[j] < mn) mn = lnum[j]; if (lnum[j] == aNum (d)) in = 1; }
    VP_ASSERT (aWght (d) == s, "domain weight %ld, terminals weigh %ld", (long) aWght (d), (long) s);
    if (minlabel) VP_ASSERT (aNum (d) == mn, "domain number %ld is not its smallest terminal %ld", (long) aNum (d), (long) mn);
    else VP_ASSERT (in, "domain number %ld not among its terminals", (long) aNum (d));
    if (nod[k].l >= 0) VP_ASSERT (nod[nod[k].l].hi > nod[nod[k].l].lo && nod[nod[k].r].hi > nod[nod[k].r].lo, "empty child");
  }
  for (i = 0; i < n; i ++) {
    ArchDom t; memset (&t, 0x11, sizeof (t));
    VP_ASSERT (aTerm (&t, lnum[i]) == 0, "terminal %ld refused", (long) lnum[i]);
    VP_ASSERT (aNum (&t) == lnum[i] && aSize (&t) == 1, "terminal %ld has number %ld size %ld", (long) lnum[i], (long) aNum (&t), (long) aSize (&t));
    same (&t, &nod[leaf[i]].d, "terminal domain built from its number");
  }
  if (ident) { ArchDom t; for (s = 0; s < 3; s ++) { Anum b = n + (s ? vp_rand (1000) : 0); VP_ASSERT (aTerm (&t, b) != 0, "terminal number %ld beyond %ld accepted", (long) b, (long) n); } }
  { int lim = (n <= 40) ? nodn : 60;
    for (i = 0; i < lim; i ++) for (j = 0; j < lim; j ++) {
      int a = (n <= 40) ? i : (int) vp_rand (nodn), b = (n <= 40) ? j : (int) vp_rand (nodn);
      int inc = nod[b].lo >= nod[a].lo && nod[b].hi <= nod[a].hi;
      Anum dd = aDist (&nod[a].d, &nod[b].d);
      VP_ASSERT ((aIncl (&nod[a].d, &nod[b].d) != 0) == inc, "inclusion of domain [%d,%d) in [%d,%d) answered %d", nod[b].lo, nod[b].hi, nod[a].lo, nod[a].hi, aIncl (&nod[a].d, &nod[b].d));
      VP_ASSERT (dd >= 0 && dd == aDist (&nod[b].d, &nod[a].d), "distance between domains not symmetric: %ld %ld", (long) dd, (long) aDist (&nod[b].d, &nod[a].d));
      if (a == b) VP_ASSERT (nod[a].l >= 0 || dd == 0, "distance of a terminal domain to itself %ld", (long) dd);
    }
    for (i = 0; i < lim; i ++) for (j = 0; j < lim; j ++) {
      int a = (n <= 40) ? i % n : (int) vp_rand (n), b = (n <= 40) ? j % n : (int) vp_rand (n), c = vp_rand (n);
      Anum dd = aDist (&nod[leaf[a]].d, &nod[leaf[b]].d);
      VP_ASSERT ((dd == 0) == (a == b), "distance %ld between terminals %ld and %ld", (long) dd, (long) lnum[a], (long) lnum[b]);
      VP_ASSERT (dd <= aDist (&nod[leaf[a]].d, &nod[leaf[c]].d) + aDist (&nod[leaf[c]].d, &nod[leaf[b]].d), "triangle inequality");
      if (refdist) VP_ASSERT (dd == refdist (lnum[a], lnum[b]), "distance between terminals %ld and %ld is %ld, expected %ld", (long) lnum[a], (long) lnum[b], (long) dd, (long) refdist (lnum[a], lnum[b]));
    } }
  for (i = 0; i < (nodn < 30 ? nodn : 30); i ++) domsaveload (&nod[nodn <= 30 ? i : vp_rand (nodn)].d);
  matching ();
}
/* architecture written out and read back behaves the same */
static void archrt (Arch *a) {
  static char buf[1 << 15]; FILE *f; Arch b; int i, j;
  memset (buf, 0, sizeof (buf));
  f = fmemopen (buf, sizeof (buf) - 1, "w"); VP_ASSERT (archSave (a, f) == 0, "architecture not saved"); fclose (f);
  archInit (&b);
  f = fmemopen (buf, strlen (buf), "r"); VP_ASSERT (archLoad (&b, f) == 0, "saved architecture not loaded: %s", buf); fclose (f);
  VP_ASSERT (b.clasptr == a->clasptr && (b.flagval & (ARCHPART | ARCHVAR)) == (a->flagval & (ARCHPART | ARCHVAR)), "class changed by save and load");
  { static ArchDom td[NMAX]; Anum n = leafn; Arch *o = A; ArchDom r, rb;
    A = a; for (i = 0; i < n; i ++) td[i] = nod[leaf[i]].d; aFrst (&r);
    A = &b; aFrst (&rb);
    VP_ASSERT (b.clasptr->domSize (&b.data, &rb.data) == a->clasptr->domSize (&a->data, &r.data) && b.clasptr->domWght (&b.data, &rb.data) == a->clasptr->domWght (&a->data, &r.data), "whole domain differs after save and load");
    for (i = 0; i < n; i ++) {
      ArchDom t; VP_ASSERT (aTerm (&t, lnum[i]) == 0 && aNum (&t) == lnum[i], "terminal %ld after reload", (long) lnum[i]);
      for (j = 0; j < 10; j ++) { ArchDom u; int k = vp_rand (n); Anum d1, d0; aTerm (&u, lnum[k]); d1 = aDist (&t, &u);
        A = a; d0 = aDist (&td[i], &td[k]); A = &b;
        VP_ASSERT (d0 == d1, "distance changed by save and load"); VP_ASSERT (b.clasptr->domWght (&b.data, &t.data) == a->clasptr->domWght (&a->data, &td[i].data), "weight changed by save and load"); }
    }
    A = o; }
  archExit (&b);
}
static Arch *viaapi (SCOTCH_Arch *s, int r) { VP_ASSERT (r == 0, "builder refused valid parameters: %s", vp_lasterr); return (Arch *) s; }

#ifdef VP_ARCH_CMPLT
static Anum W[NMAX];
static Anum d1 (Anum a, Anum b) { return a != b; }
static Anum wt (Anum a) { return W[a]; }
static void vp_run (void) {
  refdist = d1;
  VP_CASES ("complete", 150, 3000) {
    Arch a; SCOTCH_Arch s; Anum n = (vp_caseno < 40) ? vp_caseno + 1 : vp_range (1, 300);
    vp_note (" cmplt %ld", (long) n);
    if (vp_rand (2)) { char t[64]; sprintf (t, "cmplt %ld\n", (long) n); loadtext (&a, t); A = &a; } else { SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archCmplt (&s, n)); }
    refwght = NULL; dotree (n); archrt (A); if (n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    archExit (A);
  }
  VP_CASES ("weighted complete", 250, 5000) {
    Arch a; SCOTCH_Arch s; Anum n = (vp_caseno < 40) ? vp_caseno + 2 : vp_range (2, 200), i; static char t[8192]; int o;
    for (i = 0; i < n; i ++) W[i] = vp_rand (3) ? vp_range (1, 5) : vp_range (1, 1000);
    vp_note (" cmpltw %ld", (long) n); vp_arr ("weights", W, n);
    if (vp_rand (2)) { o = sprintf (t, "cmpltw %ld", (long) n); for (i = 0; i < n; i ++) o += sprintf (t + o, " %ld", (long) W[i]); sprintf (t + o, "\n"); loadtext (&a, t); A = &a; }
    else { SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archCmpltw (&s, n, W)); }
    refwght = wt; minlabel = 0; ident = 1; dotree (n); archrt (A); VP_NONTRIVIAL ();
    minlabel = 1;
    archExit (A);
  }
  VP_CASES ("variable-sized complete", 300, 3000) {
    SCOTCH_Arch s; ArchDom d, x, y, anc[32]; int k = 0, i, j;
    SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archVcmplt (&s)); aFrst (&d); anc[k ++] = d;
    VP_ASSERT (archVar (A), "not flagged variable-sized");
    for (i = 0; i < 20; i ++) { Anum nx, ny; ArchDom t;
      VP_ASSERT (aBip (&d, &x, &y) == 0, "bipartition refused"); nx = aNum (&x); ny = aNum (&y);
      VP_ASSERT (nx != ny && nx != aNum (&d) && ny != aNum (&d), "domain numbers not distinct"); VP_ASSERT (aDist (&x, &y) == 1 && aDist (&x, &x) == 0, "distance");
      VP_ASSERT (aIncl (&d, &x) && aIncl (&d, &y) && ! aIncl (&x, &d) && ! aIncl (&x, &y) && ! aIncl (&y, &x), "inclusion of children");
      VP_ASSERT (aTerm (&t, nx) == 0 && aNum (&t) == nx && aIncl (&t, &x) && aIncl (&x, &t), "terminal from number");
      for (j = 0; j < k; j ++) VP_ASSERT (aIncl (&anc[j], &x) && aIncl (&anc[j], &y) && ! aIncl (&x, &anc[j]), "ancestor inclusion");
      d = vp_rand (2) ? x : y; anc[k ++] = d; nterm = 0; leafn = 0; domsaveload (&d); }
    VP_NONTRIVIAL (); archExit (A);
  }
}
#endif
#if defined VP_ARCH_MESH
static Anum dim[5]; static int nd, tor;
static Anum dm (Anum a, Anum b) { int i; Anum s = 0; for (i = 0; i < nd; i ++) { Anum x = a % dim[i] - b % dim[i]; if (x < 0) x = - x; if (tor && dim[i] - x < x) x = dim[i] - x; s += x; a /= dim[i]; b /= dim[i]; } return s; }
static void vp_run (void) {
  refdist = dm;
  VP_CASES ("grid and torus", 500, 8000) {
    Arch a; SCOTCH_Arch s; Anum n; int i, o; char t[256]; SCOTCH_Num dd[5];
    tor = vp_rand (2); nd = vp_range (1, 5);
    do { for (i = 0, n = 1; i < nd; i ++) { dim[i] = vp_rand (4) ? vp_range (1, 5) : vp_range (1, nd <= 2 ? 20 : 8); n *= dim[i]; dd[i] = dim[i]; } } while (n > 500);
    vp_note (" %s", tor ? "torus" : "mesh"); vp_arr ("dims", dim, nd);
    if (vp_rand (2)) { const char *p = tor ? "torus" : "mesh"; if (nd == 2 || nd == 3) o = sprintf (t, "%s%dD", p, nd); else o = sprintf (t, "%sXD %d", p, nd);
      for (i = 0; i < nd; i ++) o += sprintf (t + o, " %ld", (long) dim[i]); sprintf (t + o, "\n"); loadtext (&a, t); A = &a; }
    else { int r; SCOTCH_archInit (&s);
      if (nd == 2 && vp_rand (2)) r = tor ? SCOTCH_archTorus2 (&s, dd[0], dd[1]) : SCOTCH_archMesh2 (&s, dd[0], dd[1]);
      else if (nd == 3 && vp_rand (2)) r = tor ? SCOTCH_archTorus3 (&s, dd[0], dd[1], dd[2]) : SCOTCH_archMesh3 (&s, dd[0], dd[1], dd[2]);
      else r = tor ? SCOTCH_archTorusX (&s, nd, dd) : SCOTCH_archMeshX (&s, nd, dd);
      A = viaapi (&s, r); }
    dotree (n); archrt (A); if (n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    archExit (A);
  }
}
#endif
#if defined VP_ARCH_HCUB
static Anum dh (Anum a, Anum b) { return __builtin_popcount (a ^ b); }
static void vp_run (void) {
  refdist = dh;
  VP_CASES ("hypercube", 40, 400) {
    Arch a; SCOTCH_Arch s; Anum d = 1 + vp_caseno % 9; char t[64];
    vp_note (" hcub %ld", (long) d);
    if (vp_rand (2)) { sprintf (t, "hcub %ld\n", (long) d); loadtext (&a, t); A = &a; } else { SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archHcub (&s, d)); }
    dotree ((Anum) 1 << d); archrt (A); if (d > 0) { VP_NONTRIVIAL (); vp_keep (); }
    archExit (A);
  }
  VP_CASES ("large hypercube", 300, 3000) {   /* random walks down */
    SCOTCH_Arch s; Anum dm = vp_range (10, 30), k; ArchDom d, x, y, t; Anum b;
    SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archHcub (&s, dm)); aFrst (&d); b = (Anum) vp_rand ((long) 1 << dm);
    vp_note (" hcub %ld towards %ld", (long) dm, (long) b);
    VP_ASSERT (aTerm (&t, b) == 0 && aNum (&t) == b && aSize (&t) == 1, "terminal");
    for (k = dm; k > 0; k --) {
      VP_ASSERT (aSize (&d) == ((Anum) 1 << k) && aWght (&d) == aSize (&d), "size"); VP_ASSERT (aIncl (&d, &t), "terminal not included in its ancestor");
      VP_ASSERT (aBip (&d, &x, &y) == 0, "bipartition refused");
      VP_ASSERT ((aIncl (&x, &t) != 0) + (aIncl (&y, &t) != 0) == 1, "terminal in both or no child"); VP_ASSERT (! aIncl (&x, &y) && ! aIncl (&x, &d), "inclusion");
      d = aIncl (&x, &t) ? x : y; }
    VP_ASSERT (aBip (&d, &x, &y) == 1 && aNum (&d) == b, "terminal reached is not the one sought"); VP_NONTRIVIAL (); archExit (A);
  }
  VP_CASES ("variable-sized hypercube", 300, 3000) {
    SCOTCH_Arch s; ArchDom d, e, x, y, anc[32]; int k = 0, i, j;
    SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archVhcub (&s)); aFrst (&d); anc[k ++] = d;
    for (i = 0; i < 20; i ++) { Anum nx, ny; ArchDom t;
      VP_ASSERT (aBip (&d, &x, &y) == 0, "bipartition refused"); nx = aNum (&x); ny = aNum (&y);
      VP_ASSERT (nx != ny && nx != aNum (&d) && ny != aNum (&d), "domain numbers not distinct"); VP_ASSERT (aDist (&x, &y) == 1 && aDist (&y, &x) == 1 && aDist (&x, &x) == 0, "distance of siblings");
      VP_ASSERT (aIncl (&d, &x) && aIncl (&d, &y) && ! aIncl (&x, &d) && ! aIncl (&x, &y) && ! aIncl (&y, &x), "inclusion of children");
      VP_ASSERT (aTerm (&t, nx) == 0 && aNum (&t) == nx && aIncl (&t, &x) && aIncl (&x, &t), "terminal from number");
      for (j = 0; j < k; j ++) VP_ASSERT (aIncl (&anc[j], &x) && aIncl (&anc[j], &y) && ! aIncl (&x, &anc[j]), "ancestor inclusion");
      d = vp_rand (2) ? x : y; anc[k ++] = d; nterm = 0; leafn = 0; domsaveload (&d); }
    { ArchDom f; Anum h; unsigned wa = 0, wb = 0; int dp = vp_range (1, 20); aFrst (&d); e = d; (void) f;
      for (i = 0; i < dp; i ++) { int p = vp_rand (2), q = vp_rand (2); aBip (&d, &x, &y); d = p ? y : x; aBip (&e, &x, &y); e = q ? y : x; wa = 2 * wa + p; wb = 2 * wb + q; }
      h = __builtin_popcount (wa ^ wb);
      VP_ASSERT (aDist (&d, &e) == h, "distance %ld between domains at Hamming distance %ld", (long) aDist (&d, &e), (long) h); }
    VP_NONTRIVIAL (); archExit (A);
  }
}
#endif
#if defined VP_ARCH_TLEAF
int SCOTCH_archLtleaf (SCOTCH_Arch * const, const SCOTCH_Num, const SCOTCH_Num * const, const SCOTCH_Num * const, const SCOTCH_Num, const SCOTCH_Num * const);
static Anum lv, sz[8], lk[8], pn, perm[NMAX], peri[NMAX];
static Anum unp (Anum a) { return pn > 1 ? a - a % pn + peri[a % pn] : a; }
static Anum dt (Anum a, Anum b) { Anum s = 0; int l; a = unp (a); b = unp (b); for (l = lv - 1; l >= 0 && a != b; l --) { a /= sz[l]; b /= sz[l]; s += lk[l]; } return s; }
static void vp_run (void) {
  refdist = dt;
  VP_CASES ("tree leaves", 500, 8000) {
    Arch a; SCOTCH_Arch s; Anum n; int i, o; static char t[4096]; SCOTCH_Num ss[8], ll[8]; int lab = vp_rand (2);
    do { lv = vp_range (1, 4); for (i = 0, n = 1; i < lv; i ++) { sz[i] = vp_rand (3) ? vp_range (2, 5) : vp_range (2, 9); lk[i] = vp_rand (2) ? vp_range (1, 9) : (lv - i) * 5; n *= sz[i]; ss[i] = sz[i]; ll[i] = lk[i]; } } while (n > 300);
    pn = 1; perm[0] = 0;
    if (lab) { int l = lv, k = vp_range (0, lv); pn = 1; while (k -- > 0) pn *= sz[-- l]; for (i = 0; i < pn; i ++) perm[i] = i; for (i = pn - 1; i > 0; i --) { int j = vp_rand (i + 1); Anum x = perm[i]; perm[i] = perm[j]; perm[j] = x; } }
    for (i = 0; i < pn; i ++) peri[perm[i]] = i;
    vp_note (" %s", lab ? "ltleaf" : "tleaf"); vp_arr ("sizes", sz, lv); vp_arr ("links", lk, lv); if (lab) vp_arr ("perm", perm, pn);
    o = sprintf (t, "%s %ld", lab ? "ltleaf" : "tleaf", (long) lv); for (i = 0; i < lv; i ++) o += sprintf (t + o, " %ld %ld", (long) sz[i], (long) lk[i]);
    if (lab) { o += sprintf (t + o, " %ld", (long) pn); for (i = 0; i < pn; i ++) o += sprintf (t + o, " %ld", (long) perm[i]); }
    sprintf (t + o, "\n");
    if (lab) { SCOTCH_archInit (&s);
      if (vp_rand (2)) { SCOTCH_Num pp[NMAX]; for (i = 0; i < pn; i ++) pp[i] = perm[i]; A = viaapi (&s, SCOTCH_archLtleaf (&s, lv, ss, ll, pn, pp)); } else { loadtext (&a, t); A = &a; } }
    else if (vp_rand (2)) { loadtext (&a, t); A = &a; } else { SCOTCH_archInit (&s); A = viaapi (&s, SCOTCH_archTleaf (&s, lv, ss, ll)); }
    minlabel = ! lab || pn == 1; dotree (n); archrt (A); if (n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    archExit (A);
  }
}
#endif
