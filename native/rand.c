#include "vp.h"
#include "common_values.h"
#include "context.h"
#include "scotch.h"
/* permutations, sorts, random generators, contexts and their options */
static int rowcmp (const void *a, const void *b, void *w) { const Gnum *p = a, *q = b; long k = *(long *) w, i; for (i = 0; i < k; i ++) if (p[i] != q[i]) return (p[i] < q[i] ? -1 : 1); return (0); }
static void rowsort (Gnum *t, long n, long w) { qsort_r (t, n, w * sizeof (Gnum), rowcmp, &w); }
static Gnum gcd (Gnum a, Gnum b) { return (b == 0 ? a : gcd (b, a % b)); }
static Gnum key (int kind, long i, long n) {
  switch (kind) {
    case 0 : return ((Gnum) vp_range (0, n));
    case 1 : return ((Gnum) vp_range (-3, 3));
    case 2 : return ((Gnum) i);
    case 3 : return ((Gnum) (n - i));
    case 4 : return (7);
    case 5 : return ((Gnum) (vp_r64 () >> 32));
    case 6 : return (vp_rand (6) ? (Gnum) i : (Gnum) vp_range (0, n));
    case 7 : return ((Gnum) (i < n / 2 ? 2 * i : 2 * (n - i) - 1));
    default : return (vp_rand (3) ? (vp_rand (2) ? GNUMMAX : -GNUMMAX - 1) : (Gnum) vp_range (-2, 2));
  }
}
#define SEQ 12
static void seq (IntRandContext *r, UINT m, UINT *o) { int i; for (i = 0; i < SEQ; i ++) { o[i] = intRandVal (r, m); VP_ASSERT (o[i] < m, "value %lu outside 0..%lu", (unsigned long) o[i], (unsigned long) m - 1); } }
static void gseq (SCOTCH_Num m, UINT *o) { int i; for (i = 0; i < SEQ; i ++) { SCOTCH_Num v = SCOTCH_randomVal (m); VP_ASSERT (v >= 0 && v < m, "value %ld outside 0..%ld", (long) v, (long) m - 1); o[i] = v; } }
#define SAME(a,b) (memcmp ((a), (b), sizeof (UINT) * SEQ) == 0)
static void vp_run (void) {
  VP_CASES ("sort", 100000, 1000000) {
    static void (* const F[5]) (void * const, const INT) = { intSort1asc1, intSort2asc1, intSort2asc2, intSort3asc1, intSort3asc2 };
    static const int W[5] = { 1, 2, 2, 3, 3 }, K[5] = { 1, 1, 2, 1, 2 };
    long f = vp_rand (6), w = f < 5 ? W[f] : 2, n = vp_rand (4) ? vp_rand (40) : (vp_rand (40) ? vp_rand (300) : vp_rand (20000)), i, j; int kind = (int) vp_rand (9), lev = (int) vp_rand (6);
    Gnum *t = vp_malloc (sizeof (Gnum) * (n * w + 1)), *a = vp_malloc (sizeof (Gnum) * (n * w + 1));
    if (n > 600) kind = (int) vp_rand (9);
    for (i = 0; i < n; i ++) { t[i * w] = key (kind, i, n); for (j = 1; j < w; j ++) t[i * w + j] = vp_rand (2) ? (Gnum) i : key (1, i, n); }
    t[n * w] = 0x5a5a5a; memcpy (a, t, sizeof (Gnum) * (n * w + 1));
    vp_note (" sort=%ld items=%ld kind=%d levels=%d", f, n, kind, lev); if (n < 24) vp_arr ("table", a, n * w);
    if (n > 6) { VP_NONTRIVIAL (); vp_keep (); }
    if (f < 5) F[f] (t, n); else intPsort2asc1 (t, n, lev);
    VP_ASSERT (t[n * w] == 0x5a5a5a, "written after the end");
    if (f < 5) for (i = 1; i < n; i ++) { long k = K[f]; VP_ASSERT (rowcmp (t + (i - 1) * w, t + i * w, &k) <= 0, "entries %ld and %ld are not in order", i - 1, i); }
    rowsort (t, n, w); rowsort (a, n, w);
    VP_ASSERT (memcmp (t, a, sizeof (Gnum) * n * w) == 0, "the entries are not those given");
    free (t); free (a);
  }
  VP_CASES ("perm", 60000, 500000) {
    Context c; IntRandContext r; long n = vp_rand (3) ? vp_rand (20) : vp_rand (300), i; Gnum b = vp_range (-3, 3), *t = vp_malloc (sizeof (Gnum) * (n + 1)), *a = vp_malloc (sizeof (Gnum) * (n + 1)); int asc = vp_rand (2);
    memset (&c, 0, sizeof (c)); memset (&r, 0, sizeof (r)); c.randptr = &r; intRandInit (&r); intRandSeed (&r, (INT) vp_rand (1 << 30));
    for (i = 0; i <= n; i ++) t[i] = (Gnum) vp_range (-5, 5);
    if (asc) { intAscn (t, n, b); for (i = 0; i < n; i ++) VP_ASSERT (t[i] == b + i, "entry %ld is %ld", i, (long) t[i]); }
    memcpy (a, t, sizeof (Gnum) * (n + 1));
    vp_note (" items=%ld base=%ld", n, (long) b); if (n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    intPerm (t, n, &c);
    VP_ASSERT (t[n] == a[n], "written after the end");
    rowsort (t, n, 1); rowsort (a, n, 1);
    VP_ASSERT (memcmp (t, a, sizeof (Gnum) * n) == 0, "the entries are not those given");
    { INT u = (INT) vp_rand (vp_rand (2) ? 60 : 1 << 30), v = (INT) vp_rand (vp_rand (2) ? 60 : 1 << 30), k = (INT) vp_range (1, 40);
      if (vp_rand (2) && u < (1 << 24) && v < (1 << 24)) u *= k, v *= k;
      VP_ASSERT (intGcd (u, v) == gcd (u, v), "gcd of %ld and %ld is %ld", (long) u, (long) v, (long) intGcd (u, v)); }
    free (t); free (a);
  }
  VP_CASES ("random", 40000, 300000) {
    UINT a[SEQ], b[SEQ], d[SEQ]; SCOTCH_Num m = vp_rand (3) ? (SCOTCH_Num) vp_range (1, 1000) : (vp_rand (2) ? SCOTCH_NUMMAX : (SCOTCH_Num) vp_range (1, 1L << 30)), s = (SCOTCH_Num) (vp_r64 () >> 32); int k = (int) vp_rand (50), i, proc = (int) vp_rand (8); FILE *f; char *buf = NULL; size_t len = 0;
    vp_note (" seed=%ld max=%ld process=%d", (long) s, (long) m, proc); VP_NONTRIVIAL (); vp_keep ();
    SCOTCH_randomProc (proc); SCOTCH_randomSeed (s); gseq (m, a);
    for (i = 0; i < k; i ++) SCOTCH_randomVal (10);
    if (vp_rand (2)) SCOTCH_randomReset (); else SCOTCH_randomSeed (s);
    gseq (m, b); VP_ASSERT (SAME (a, b), "the same seed does not give the same values again");
    SCOTCH_randomReset (); gseq (m, b); VP_ASSERT (SAME (a, b), "resetting does not give the same values again");
    for (i = 0; i < k; i ++) SCOTCH_randomVal (10);
    f = open_memstream (&buf, &len); VP_ASSERT (SCOTCH_randomSave (f) == 0, "saving fails"); fclose (f);
    gseq (m, a);
    if (vp_rand (2)) SCOTCH_randomSeed (s + 1);
    if (vp_rand (2)) SCOTCH_randomProc (proc + 1);
    f = fmemopen (buf, len, "r"); VP_ASSERT (SCOTCH_randomLoad (f) == 0, "loading what was saved fails: %s", buf); fclose (f);
    gseq (m, b); VP_ASSERT (SAME (a, b), "loading does not restore the state saved");
    SCOTCH_randomReset (); gseq (m, b);
    SCOTCH_randomProc (proc); SCOTCH_randomSeed (s); gseq (m, d);
    VP_ASSERT (SAME (b, d), "loading does not restore the seed and process number");
    /* truncated or foreign text */
    { size_t cut = vp_rand (len); char *q; int tok = 0, in = 0; for (i = 0; i < (int) cut; i ++) { if (isspace ((unsigned char) buf[i])) in = 0; else { if (! in) tok ++; in = 1; } }
      q = malloc (cut + 1); memcpy (q, buf, cut); q[cut] = '\0';
      if (tok < 5 && cut > 0) { f = fmemopen (q, cut, "r"); VP_ASSERT (SCOTCH_randomLoad (f) != 0, "a truncated state is accepted: \"%s\"", q); fclose (f); }
      free (q); }
    { char t[64]; snprintf (t, 64, "%ld\n1\t2\n3\t4\n", vp_range (2, 9)); f = fmemopen (t, strlen (t), "r"); VP_ASSERT (SCOTCH_randomLoad (f) != 0, "an unknown version is accepted"); fclose (f); }
    SCOTCH_randomProc (0); SCOTCH_randomSeed (1);
    free (buf);
  }
  VP_CASES ("context", 40000, 300000) {
    SCOTCH_Context sc, sd; Context *c = (Context *) &sc, *d = (Context *) &sd; UINT a[SEQ], b[SEQ], e[SEQ]; SCOTCH_Num m = (SCOTCH_Num) vp_range (1, 5000), s = (SCOTCH_Num) vp_rand (1 << 20); int i, k = (int) vp_rand (30), clone = vp_rand (4) != 0; SCOTCH_Num mod[2], moe[2]; int o;
    memset (&sc, 0x33, sizeof (sc)); memset (&sd, 0x33, sizeof (sd));
    SCOTCH_randomSeed (s); for (i = 0; i < k; i ++) SCOTCH_randomVal (9);
    VP_ASSERT (SCOTCH_contextInit (&sc) == 0 && SCOTCH_contextInit (&sd) == 0, "creating a context fails");
    vp_note (" seed=%ld clone=%d", (long) s, clone); VP_NONTRIVIAL (); vp_keep ();
    if (clone) {
      VP_ASSERT (SCOTCH_contextRandomClone (&sc) == 0, "cloning fails");
      VP_ASSERT (c->randptr != d->randptr, "the clone is shared");
      seq (c->randptr, m, a); gseq (m, b); VP_ASSERT (SAME (a, b), "the clone does not continue as the global generator does");
      seq (c->randptr, m, a); if (vp_rand (2)) gseq (m, b); seq (c->randptr, m, e);
      SCOTCH_contextRandomReset (&sc); seq (c->randptr, m, a); SCOTCH_randomReset (); gseq (m, b); VP_ASSERT (SAME (a, b), "resetting the clone does not go back to the seed");
      /* seeding or using the clone does not move the global generator */
      SCOTCH_randomSeed (s); gseq (m, a); SCOTCH_randomSeed (s);
      SCOTCH_contextRandomSeed (&sc, s + 5); seq (c->randptr, m, e); SCOTCH_contextRandomReset (&sc);
      gseq (m, b); VP_ASSERT (SAME (a, b), "a private generator disturbs the global one");
      seq (c->randptr, m, b); VP_ASSERT (SAME (e, b), "seeding and resetting a context differ");
      SCOTCH_randomSeed (s + 5); gseq (m, b); VP_ASSERT (SAME (e, b), "the same seed gives other values in a context");
      if (vp_rand (2)) { IntRandContext *old = c->randptr; SCOTCH_randomSeed (s + 9); VP_ASSERT (SCOTCH_contextRandomClone (&sc) == 0 && c->randptr == old, "cloning again fails"); seq (c->randptr, m, a); gseq (m, b); VP_ASSERT (SAME (a, b), "cloning again does not take the current state"); }
    } else {
      SCOTCH_contextRandomSeed (&sc, s + 2); gseq (m, a); SCOTCH_contextRandomReset (&sd); gseq (m, b); VP_ASSERT (SAME (a, b), "contexts without a private generator do not share the global one");
    }
    for (o = 0; o < 2; o ++) { VP_ASSERT (SCOTCH_contextOptionGetNum (&sc, o, &mod[o]) == 0 && SCOTCH_contextOptionGetNum (&sd, o, &moe[o]) == 0 && mod[o] == moe[o], "default options"); }
    for (i = 0; i < 12; i ++) {
      int w = (int) vp_rand (2), form = (int) vp_rand (3); SCOTCH_Context *p = w ? &sd : &sc; SCOTCH_Num *q = w ? moe : mod, v;
      if (form == 0) { v = (SCOTCH_Num) vp_range (-1, 2); o = (int) vp_range (-1, 2);
        int r = SCOTCH_contextOptionSetNum (p, o, v);
        if (o < 0 || o > 1) VP_ASSERT (r != 0, "option %d accepted", o);
        else { VP_ASSERT (r == 0, "option %d refused", o); q[o] = v != 0; if (o == CONTEXTOPTIONNUMDETERMINISTIC && v != 0) q[CONTEXTOPTIONNUMRANDOMFIXEDSEED] = 1; } }
      else if (form == 1) { char t[40]; int l = 0, x, bad = 0; long cnt = vp_range (0, 4); static const char L[] = "dufrx?";
        for (x = 0; x < cnt && ! bad; x ++) {
          char h = L[vp_rand (12) ? vp_rand (4) : vp_rand (6)];
          if (x > 0 && vp_rand (2)) { if (vp_rand (2)) t[l ++] = ' '; t[l ++] = ','; }
          if (vp_rand (3) == 0) t[l ++] = ' ';
          t[l ++] = h;
          if (h == 'd') q[0] = q[1] = 1; else if (h == 'u') q[0] = 0; else if (h == 'f') q[1] = 1; else if (h == 'r') q[1] = 0; else bad = 1; }
        t[l] = '\0'; vp_note (" parse \"%s\"", t);
        VP_ASSERT ((SCOTCH_contextOptionParse (p, t) != 0) == bad, "option string \"%s\" %s", t, bad ? "accepted" : "refused"); }
      for (o = 0; o < 2; o ++) { v = 77; VP_ASSERT (SCOTCH_contextOptionGetNum (&sc, o, &v) == 0 && v == mod[o], "option %d of the first context is %ld instead of %ld", o, (long) v, (long) mod[o]);
        v = 77; VP_ASSERT (SCOTCH_contextOptionGetNum (&sd, o, &v) == 0 && v == moe[o], "option %d of the second context is %ld instead of %ld", o, (long) v, (long) moe[o]); }
      { SCOTCH_Num v2 = 77; int bad = vp_rand (2) ? -1 : 2; VP_ASSERT (SCOTCH_contextOptionGetNum (&sc, bad, &v2) != 0, "option %d returned", bad); }
    }
    SCOTCH_contextExit (&sc); SCOTCH_contextExit (&sd);
    SCOTCH_randomSeed (1);
  }
}
