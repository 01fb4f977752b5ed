#include "vp.h"
#include "context.h"
#include "geom.h"
#include "scotch.h"
/* files: what is saved is read back; a damaged file is refused or gives a well-formed object, never a wrong access */
#include "vio.h"
/* the loaded graph is the generated one, in base nb */
static void same (const VG *g, const SCOTCH_Graph *so, Gnum nb, int velo, int edlo, int vlbl, int order) {
  const Graph *a = (const Graph *) so; Gnum i, j, d; const char *why = vg_wellformed (a);
  VP_ASSERT (why == NULL, "loaded graph not well formed: %s", why ? why : "");
  VP_ASSERT (a->baseval == nb && a->vertnbr == g->n && a->vertnnd == g->n + nb && a->edgenbr == g->m, "loaded sizes: base %ld, %ld vertices up to %ld, %ld arcs", (long) a->baseval, (long) a->vertnbr, (long) a->vertnnd, (long) a->edgenbr);
  VP_ASSERT ((a->velotax != NULL) == (velo && g->velo) && (g->m == 0 || (a->edlotax != NULL) == (edlo && g->edlo)) && (a->vlbltax != NULL) == (vlbl && g->vlbl), "loaded optional arrays");
  for (i = 0; i < g->n; i ++) {
    d = g->vend[i] - g->vert[i];
    VP_ASSERT (a->vendtax[nb + i] - a->verttax[nb + i] == d, "loaded degree of vertex %ld", (long) i);
    if (a->velotax) VP_ASSERT (a->velotax[nb + i] == g->velo[i], "loaded load of vertex %ld", (long) i);
    if (a->vlbltax) VP_ASSERT (a->vlbltax[nb + i] == g->vlbl[i] + (vlbl == 2 ? 1 - g->base : 0), "loaded label of vertex %ld", (long) i);
    for (j = 0; j < d; j ++) {
      Gnum e = g->vert[i] - g->base + j, f = a->verttax[nb + i] + j;
      if (order) VP_ASSERT (a->edgetax[f] - nb == g->edge[e] - g->base && (! a->edlotax || a->edlotax[f] == g->edlo[e]), "loaded arc %ld of vertex %ld", (long) j, (long) i);
      else VP_ASSERT (vg_arc (a, nb + i, nb + g->edge[e] - g->base) != 0, "arc %ld of vertex %ld not loaded", (long) j, (long) i);
    }
  }
}
static void gbuild (SCOTCH_Graph *so, const VG *g) {
  SCOTCH_graphInit (so);
  if (SCOTCH_graphBuild (so, g->base, g->n, g->vert, g->compact ? NULL : g->vend, g->velo, g->vlbl, g->m, g->edge, g->edlo) != 0) { printf ("harness: cannot build\n"); _exit (3); }
}
static void tryload (const char *s, size_t n, Gnum nb, int fl) {
  SCOTCH_Graph sl; FILE *f = ropen (s, n); int r; const char *why;
  SCOTCH_graphInit (&sl);
  r = SCOTCH_graphLoad (&sl, f, nb, fl);
  fclose (f);
  if (r == 0) { why = vg_wellformed ((Graph *) &sl); VP_ASSERT (why == NULL, "graph loaded from a damaged file not well formed: %s", why ? why : ""); }
  SCOTCH_graphExit (&sl);
}
static void vp_run (void) {
  VP_CASES ("graph", 9000, 120000) {
    VG g; Gnum *w, i, e, nb; SCOTCH_Graph so, sl; FILE *f; int r, fl; long *t, nt, k = 0;
    w = vg_random (&g, vp_rand (20) ? 14 : 60, VG_VELO | VG_EDLO | VG_HOLES | VG_ZEROV | VG_VLBL);
    if (g.velo && vp_rand (4) == 0) g.velo[vp_rand (g.n)] = 1000000 + vp_rand (1000000);
    if (g.vlbl && vp_rand (4) == 0) { Gnum a = vp_rand (3000); for (i = 0; i < g.n; i ++) g.vlbl[i] += a; }
    gbuild (&so, &g);
    f = wopen (); r = SCOTCH_graphSave (&so, f); fclose (f);
    VP_ASSERT (r == 0, "saving fails");
    nt = tokens (tx, &t);
    VP_ASSERT (nt >= 0, "saved file holds something else than numbers: %.200s", tx);
    TOK (0, "version"); TOK (g.n, "vertices"); TOK (g.m, "arcs"); TOK (g.base, "base"); TOK ((g.vlbl ? 100 : 0) + (g.edlo ? 10 : 0) + (g.velo ? 1 : 0), "flags");
    for (i = 0; i < g.n; i ++) {
      if (g.vlbl) TOK (g.vlbl[i], "label");
      if (g.velo) TOK (g.velo[i], "load");
      TOK (g.vend[i] - g.vert[i], "degree");
      for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) {
        if (g.edlo) TOK (g.edlo[e], "edge load");
        TOK (g.vlbl ? g.vlbl[g.edge[e] - g.base] : g.edge[e], "arc end");
      }
    }
    VP_ASSERT (k == nt, "saved file: %ld items instead of %ld", nt, k);
    if (g.m > 4) { VP_NONTRIVIAL (); vp_keep (); }
    nb = vp_rand (3) ? -1 : vp_rand (3); fl = vp_rand (2) ? 0 : (int) vp_rand (4);
    vp_note (" load base=%ld flags=%d", (long) nb, fl);
    SCOTCH_graphInit (&sl); f = ropen (tx, txn); r = SCOTCH_graphLoad (&sl, f, nb, fl); fclose (f);
    VP_ASSERT (r == 0, "loading a saved graph fails: %s", vp_lasterr);
    same (&g, &sl, nb == -1 ? g.base : nb, ! (fl & 1), ! (fl & 2), 1, 1);
    SCOTCH_graphExit (&sl);
    { size_t dn; vp_huge = ! g.vlbl; char *d = damage (tx, &dn, -3, g.n + 4); vp_huge = 0; if (dn) tryload (d, dn, vp_rand (2) ? -1 : vp_rand (2), (int) vp_rand (4)); free (d); }
    free (t); free (tx); SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
  VP_CASES ("map", 12000, 150000) {
    VG g; Gnum *w, i, *p, *q; SCOTCH_Graph so; FILE *f; int r, viamap = (int) vp_rand (2); long *t, nt, k = 0;
    SCOTCH_Arch arch; SCOTCH_Mapping m1, m2;
    w = vg_random (&g, vp_rand (20) ? 14 : 60, VG_VLBL | VG_HOLES);
    gbuild (&so, &g);
    p = vp_malloc (sizeof (Gnum) * g.n); q = vp_malloc (sizeof (Gnum) * g.n);
    for (i = 0; i < g.n; i ++) { p[i] = vp_range (-1, 8); q[i] = 77; }
    if (vp_rand (5) == 0) p[vp_rand (g.n)] = 1234567;
    vp_arr ("part", p, g.n);
    f = wopen ();
    if (viamap) { SCOTCH_archInit (&arch); SCOTCH_archCmplt (&arch, 9); SCOTCH_graphMapInit (&so, &m1, &arch, p); r = SCOTCH_graphMapSave (&so, &m1, f); }
    else r = SCOTCH_graphTabSave (&so, p, f);
    fclose (f);
    VP_ASSERT (r == 0, "saving fails");
    nt = tokens (tx, &t);
    VP_ASSERT (nt >= 0, "saved mapping holds something else than numbers");
    TOK (g.n, "vertices");
    for (i = 0; i < g.n; i ++) { TOK (g.vlbl ? g.vlbl[i] : g.base + i, "vertex"); TOK (p[i], "part"); }
    VP_ASSERT (k == nt, "saved mapping: %ld items instead of %ld", nt, k);
    if (g.n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    f = ropen (tx, txn);
    if (viamap) { SCOTCH_graphMapInit (&so, &m2, &arch, vp_rand (2) ? q : NULL); r = SCOTCH_graphMapLoad (&so, &m2, f); if (r == 0) { FILE *f2; char *sx = tx; size_t sn = txn; f2 = wopen (); SCOTCH_graphMapSave (&so, &m2, f2); fclose (f2); VP_ASSERT (txn == sn && memcmp (tx, sx, sn) == 0, "mapping loaded and saved again differs"); free (tx); tx = sx; txn = sn; } }
    else r = SCOTCH_graphTabLoad (&so, q, f);
    fclose (f);
    VP_ASSERT (r == 0, "loading a saved mapping fails: %s", vp_lasterr);
    if (! viamap) for (i = 0; i < g.n; i ++) VP_ASSERT (q[i] == p[i], "loaded part of vertex %ld is %ld", (long) i, (long) q[i]);
    { /* lines in any order, some missing, some for unknown vertices, maybe a duplicate */
      Gnum nl = 0, *lb = vp_malloc (sizeof (Gnum) * (2 * g.n + 4)), *vl = vp_malloc (sizeof (Gnum) * (2 * g.n + 4)), j; int dup = 0; char *x; size_t xn;
      for (i = 0; i < g.n; i ++) { if (vp_rand (4)) { lb[nl] = g.vlbl ? g.vlbl[i] : g.base + i; vl[nl ++] = p[i]; } else p[i] = -1; }
      for (i = vp_rand (4); i > 0; i --) { Gnum l = vp_rand (3) ? g.base + g.n * 3 + 10 + i : g.base - 1 - i; lb[nl] = l; vl[nl ++] = vp_rand (5); }
      if (nl && vp_rand (8) == 0) { lb[nl] = lb[vp_rand (nl)]; vl[nl ++] = 3; dup = 1; }
      if (vp_rand (3)) for (i = nl - 1; i > 0; i --) { Gnum a = vp_rand (i + 1), y = lb[i]; lb[i] = lb[a]; lb[a] = y; y = vl[i]; vl[i] = vl[a]; vl[a] = y; }
      f = open_memstream (&x, &xn); fprintf (f, "%ld\n", (long) nl); for (i = 0; i < nl; i ++) fprintf (f, "%ld%s%ld\n", (long) lb[i], vp_rand (2) ? "\t" : "  ", (long) vl[i]); fclose (f);
      for (i = 0; i < g.n; i ++) q[i] = 77;
      vp_note (" lines{%.400s}", x);
      f = ropen (x, xn); r = SCOTCH_graphTabLoad (&so, q, f); fclose (f);
      if (nl > 0) {
        VP_ASSERT ((r == 0) == ! dup, dup ? "a duplicate vertex is accepted" : "a partial mapping is refused: %s", vp_lasterr);
        if (! dup) for (i = 0; i < g.n; i ++) VP_ASSERT (q[i] == p[i], "part of vertex %ld read as %ld instead of %ld", (long) i, (long) q[i], (long) p[i]);
      }
      free (x); free (lb); free (vl); (void) j;
    }
    if (viamap) { SCOTCH_graphMapExit (&so, &m1); SCOTCH_graphMapExit (&so, &m2); SCOTCH_archExit (&arch); }
    { size_t dn; char *d = damage (tx, &dn, -3, g.n + 4); if (dn) { f = ropen (d, dn); SCOTCH_graphTabLoad (&so, q, f); fclose (f); } free (d); }
    free (t); free (tx); free (p); free (q); SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
  VP_CASES ("order", 4000, 60000) {
    VG g; Gnum *w, i, *pm, *pi, *pm2, *pi2, cblk = -1, cblk2, *rg, *tr, *cb; SCOTCH_Graph so; SCOTCH_Ordering o1, o2; SCOTCH_Strat st; FILE *f; int r; long *t, nt, k = 0;
    w = vg_random (&g, vp_rand (20) ? 14 : 60, VG_VLBL | VG_VELO);
    gbuild (&so, &g);
#define AL(x) x = vp_malloc (sizeof (Gnum) * (g.n + 1))
    AL (pm); AL (pi); AL (pm2); AL (pi2); AL (rg); AL (tr); AL (cb);
    SCOTCH_stratInit (&st); SCOTCH_stratGraphOrder (&st, vp_rand (2) ? "n{sep=(m{vert=4,low=h,asc=f}),ole=s,ose=s}" : "g");
    r = SCOTCH_graphOrderInit (&so, &o1, pm, pi, &cblk, rg, tr);
    if (r == 0) r = SCOTCH_graphOrderCompute (&so, &o1, &st);
    VP_ASSERT (r == 0, "ordering fails");
    f = wopen (); r = SCOTCH_graphOrderSave (&so, &o1, f); fclose (f);
    VP_ASSERT (r == 0, "saving an ordering fails");
    nt = tokens (tx, &t); TOK (g.n, "vertices");
#define LB(i) (g.vlbl ? g.vlbl[i] : g.base + (i))
    for (i = 0; i < g.n; i ++) { TOK (LB (i), "vertex"); TOK (LB (pm[i] - g.base), "position"); }
    VP_ASSERT (k == nt, "saved ordering: %ld items instead of %ld", nt, k);
    free (t);
    if (g.n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    cblk2 = -5; for (i = 0; i < g.n; i ++) pm2[i] = pi2[i] = -9;
    SCOTCH_graphOrderInit (&so, &o2, pm2, pi2, &cblk2, NULL, NULL);
    f = ropen (tx, txn); r = SCOTCH_graphOrderLoad (&so, &o2, f); fclose (f);
    if (! g.vlbl) {
      VP_ASSERT (r == 0, "loading a saved ordering fails: %s", vp_lasterr);
      for (i = 0; i < g.n; i ++) VP_ASSERT (pi2[i] == pi[i] && pm2[i] == pm[i], "loaded position of vertex %ld: %ld, %ld", (long) i, (long) pm2[i], (long) pi2[i]);
      VP_ASSERT (SCOTCH_graphOrderCheck (&so, &o2) == 0, "loaded ordering refused");
    }
    SCOTCH_graphOrderExit (&so, &o2);
    for (i = 0; i < cblk; i ++) { Gnum c; for (c = rg[i] - g.base; c < rg[i + 1] - g.base; c ++) cb[pi[c] - g.base] = i; }
    { char *s0 = tx; size_t n0 = txn;
      f = wopen (); r = SCOTCH_graphOrderSaveMap (&so, &o1, f); fclose (f); VP_ASSERT (r == 0, "saving the column blocks fails");
      k = 0; nt = tokens (tx, &t); TOK (g.n, "vertices"); for (i = 0; i < g.n; i ++) { TOK (LB (i), "vertex"); TOK (cb[i], "column block"); } VP_ASSERT (k == nt, "saved column blocks: %ld items", nt); free (t); free (tx);
      f = wopen (); r = SCOTCH_graphOrderSaveTree (&so, &o1, f); fclose (f); VP_ASSERT (r == 0, "saving the separator tree fails");
      k = 0; nt = tokens (tx, &t); TOK (g.n, "vertices"); for (i = 0; i < g.n; i ++) { TOK (LB (i), "vertex"); TOK (tr[cb[i]], "parent block"); } VP_ASSERT (k == nt, "saved separator tree: %ld items", nt); free (t); free (tx);
      tx = s0; txn = n0; }
    { size_t dn; char *d = damage (tx, &dn, -3, g.n + 4); int j, ok;
      SCOTCH_graphOrderInit (&so, &o2, pm2, pi2, NULL, NULL, NULL);
      if (dn) { f = ropen (d, dn); r = SCOTCH_graphOrderLoad (&so, &o2, f); fclose (f);
        if (r == 0) for (i = 0; i < g.n; i ++) { for (j = ok = 0; j < g.n; j ++) ok += (pi2[j] == g.base + i); VP_ASSERT (ok == 1, "an ordering read from a damaged file is not a permutation"); } }
      SCOTCH_graphOrderExit (&so, &o2); free (d); }
    SCOTCH_graphOrderExit (&so, &o1); SCOTCH_stratExit (&st);
    free (tx); free (pm); free (pi); free (pm2); free (pi2); free (rg); free (tr); free (cb); SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
  VP_CASES ("chaco", 6000, 80000) {
    VG g; Gnum *w, i, e; SCOTCH_Graph so, sl; SCOTCH_Geom ge; FILE *f; int r;
    w = vg_random (&g, vp_rand (20) ? 14 : 60, VG_VELO | VG_EDLO | VG_HOLES | VG_VLBL);
    if (g.vlbl) { for (i = 0; i < g.n; i ++) g.vlbl[i] = g.base + i; for (i = g.n - 1; i > 0; i --) { Gnum a = vp_rand (i + 1), y = g.vlbl[i]; g.vlbl[i] = g.vlbl[a]; g.vlbl[a] = y; } }
    gbuild (&so, &g); SCOTCH_geomInit (&ge);
    f = wopen (); r = SCOTCH_graphGeomSaveChac (&so, &ge, f, NULL, NULL); fclose (f);
    VP_ASSERT (r == 0, "saving fails");
    { const char *s = tx; char *x; long v; /* line by line */
#define NUM(want, what) do { v = strtol (s, &x, 10); VP_ASSERT (x != s && v == (long) (want), "Chaco file: %s is %ld instead of %ld", what, v, (long) (want)); s = x; } while (0)
      NUM (g.n, "vertices"); NUM (g.m / 2, "edges"); NUM ((g.vlbl ? 100 : 0) + (g.velo ? 10 : 0) + (g.edlo ? 1 : 0), "flags");
      VP_ASSERT (*s ++ == '\n', "Chaco file: end of header");
      for (i = 0; i < g.n; i ++) {
        if (g.vlbl) NUM (g.vlbl[i] + 1 - g.base, "label");
        if (g.velo) NUM (g.velo[i], "load");
        for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) { NUM ((g.vlbl ? g.vlbl[g.edge[e] - g.base] : g.edge[e]) + 1 - g.base, "arc end"); if (g.edlo) NUM (g.edlo[e], "edge load"); }
        VP_ASSERT (*s ++ == '\n', "Chaco file: end of the line of vertex %ld", (long) i);
      }
      VP_ASSERT (*s == '\0', "Chaco file: trailing text"); }
    if (g.m > 4) { VP_NONTRIVIAL (); vp_keep (); }
    if (vp_rand (3) == 0) { char *x; size_t xn, j; int bol = 1; f = open_memstream (&x, &xn); for (j = 0; j < txn; j ++) { if (bol && vp_rand (4) == 0) fprintf (f, vp_rand (2) ? "%% a comment\n" : "%%\n"); fputc (tx[j], f); bol = tx[j] == '\n'; } fclose (f); free (tx); tx = x; txn = xn; }
    SCOTCH_graphInit (&sl); f = ropen (tx, txn); r = SCOTCH_graphGeomLoadChac (&sl, &ge, f, NULL, NULL); fclose (f);
    VP_ASSERT (r == 0, "loading a saved Chaco graph fails: %s", vp_lasterr);
    same (&g, &sl, 1, 1, 1, 2, 1);
    SCOTCH_graphExit (&sl);
    { /* one number changed, added or dropped */
      char *x; size_t xn, j; long at = vp_rand ((long) txn), kind = vp_rand (4), done = 0; f = open_memstream (&x, &xn);
      for (j = 0; j < txn; j ++) { if ((long) j >= at && ! done && tx[j] >= '0' && tx[j] <= '9' && (j == 0 || tx[j - 1] < '0')) { done = 1;
          if (kind == 0) { while (tx[j] >= '0' && tx[j] <= '9') j ++; }
          else if (kind == 1) { long a = strtol (tx + j, NULL, 10); fprintf (f, "%ld %ld ", a, a); while (tx[j] >= '0' && tx[j] <= '9') j ++; }
          else { fprintf (f, "%ld", (long) vp_range (-2, g.n + 3)); while (tx[j] >= '0' && tx[j] <= '9') j ++; } }
        fputc (tx[j], f); }
      fclose (f); vp_note (" damaged{%.500s}", x);
      SCOTCH_graphInit (&sl); f = ropen (x, xn ? xn : 1); r = SCOTCH_graphGeomLoadChac (&sl, &ge, f, NULL, NULL); fclose (f);
      if (r == 0) { const char *why = vg_wellformed ((Graph *) &sl); VP_ASSERT (why == NULL, "graph loaded from a damaged Chaco file not well formed: %s", why); }
      SCOTCH_graphExit (&sl); free (x); }
    SCOTCH_geomExit (&ge); free (tx); SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
  VP_CASES ("mmkt", 6000, 80000) {
    VG g; Gnum *w, i, e, nb; SCOTCH_Graph so, sl; SCOTCH_Geom ge; FILE *f; int r; char *x; size_t xn;
    w = vg_random (&g, vp_rand (20) ? 14 : 60, VG_HOLES);
    gbuild (&so, &g); SCOTCH_geomInit (&ge);
    f = wopen (); r = SCOTCH_graphGeomSaveMmkt (&so, &ge, f, NULL, NULL); fclose (f);
    VP_ASSERT (r == 0, "saving fails");
    if (g.m > 4) { VP_NONTRIVIAL (); vp_keep (); }
    SCOTCH_graphInit (&sl); f = ropen (tx, txn); r = SCOTCH_graphGeomLoadMmkt (&sl, &ge, f, NULL, NULL); fclose (f);
    VP_ASSERT (r == 0, "loading a saved MatrixMarket graph fails: %s", vp_lasterr);
    same (&g, &sl, 1, 0, 0, 0, 0); SCOTCH_graphExit (&sl);
    /* a general matrix with values, entries in any order, some doubled, indices starting from nb */
    nb = vp_rand (3) ? 1 : vp_rand (3);
    { Gnum nl = 0, *a = vp_malloc (sizeof (Gnum) * 4 * (g.m + 2 * g.n + 4)); char bs[8];
      for (i = 0; i < g.n; i ++) { if (vp_rand (2)) { a[2 * nl] = a[2 * nl + 1] = i; nl ++; }
        for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) { Gnum j = g.edge[e] - g.base; if (j < i) { int c = (int) vp_rand (4); if (c != 1) { a[2 * nl] = i; a[2 * nl + 1] = j; nl ++; } if (c == 1 || c == 2) { a[2 * nl] = j; a[2 * nl + 1] = i; nl ++; } } } }
      for (i = nl - 1; i > 0; i --) { Gnum k = vp_rand (i + 1), y; y = a[2 * i]; a[2 * i] = a[2 * k]; a[2 * k] = y; y = a[2 * i + 1]; a[2 * i + 1] = a[2 * k + 1]; a[2 * k + 1] = y; }
      f = open_memstream (&x, &xn);
      fprintf (f, "%%%%MatrixMarket matrix coordinate real general\n%s%ld %ld %ld\n", vp_rand (2) ? "% a comment\n%\n" : "", (long) g.n, (long) g.n, (long) nl);
      for (i = 0; i < nl; i ++) fprintf (f, "%ld %ld %g\n", (long) (a[2 * i] + nb), (long) (a[2 * i + 1] + nb), vp_rand (100) / 7.0);
      fclose (f); free (a);
      vp_note (" base=%ld matrix{%.600s}", (long) nb, x);
      snprintf (bs, 8, "%ld", (long) nb);
      SCOTCH_graphInit (&sl); f = ropen (x, xn); r = SCOTCH_graphGeomLoadMmkt (&sl, &ge, f, NULL, nb == 1 && vp_rand (2) ? NULL : bs); fclose (f);
      VP_ASSERT (r == 0, "loading a MatrixMarket matrix fails: %s", vp_lasterr);
      same (&g, &sl, nb, 0, 0, 0, 0); SCOTCH_graphExit (&sl); free (x); }
    SCOTCH_geomExit (&ge); free (tx); SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
  VP_CASES ("geom", 6000, 80000) {
    VG g; Gnum *w, i, j; SCOTCH_Graph so, sl; SCOTCH_Geom gs, gl; FILE *f, *h; int r, dim = (int) vp_range (1, 3); double *c; char *hx; size_t hn; Geom *gp = (Geom *) &gs; double *lc; SCOTCH_Num ld;
    w = vg_random (&g, vp_rand (20) ? 14 : 60, VG_VELO | VG_HOLES | VG_VLBL);
    gbuild (&so, &g); SCOTCH_geomInit (&gs); SCOTCH_geomInit (&gl);
    c = malloc (sizeof (double) * g.n * dim); for (i = 0; i < g.n * dim; i ++) c[i] = vp_range (-40, 40) / 4.0;
    gp->dimnnbr = dim; gp->geomtab = c;
    vp_note (" dim=%d", dim);
    f = wopen (); h = open_memstream (&hx, &hn); r = SCOTCH_graphGeomSaveScot (&so, &gs, f, h, NULL); fclose (f); fclose (h);
    VP_ASSERT (r == 0, "saving fails");
    if (vp_rand (2)) { /* lines in another order */
      char **ln = vp_malloc (sizeof (char *) * (g.n + 4)), *y = strdup (hx), *s = strtok (y, "\n"); Gnum nl = 0; while (s) { ln[nl ++] = s; s = strtok (NULL, "\n"); }
      VP_ASSERT (nl == g.n + 2, "geometry file: %ld lines", (long) nl);
      for (i = nl - 1; i > 2; i --) { char *q; j = 2 + vp_rand (i - 1); q = ln[i]; ln[i] = ln[j]; ln[j] = q; }
      free (hx); h = open_memstream (&hx, &hn); for (i = 0; i < nl; i ++) fprintf (h, "%s\n", ln[i]); fclose (h); free (ln); free (y); }
    vp_note (" geometry{%.300s}", hx);
    if (g.n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    SCOTCH_graphInit (&sl); f = ropen (tx, txn); h = ropen (hx, hn); r = SCOTCH_graphGeomLoadScot (&sl, &gl, f, h, NULL); fclose (f); fclose (h);
    VP_ASSERT (r == 0, "loading a saved graph with its geometry fails: %s", vp_lasterr);
    same (&g, &sl, g.base, 1, 1, 1, 1);
    SCOTCH_geomData (&gl, &ld, &lc);
    VP_ASSERT (ld == dim, "loaded dimension %ld instead of %d", (long) ld, dim);
    for (i = 0; i < g.n * dim; i ++) VP_ASSERT (lc[i] == c[i], "loaded coordinate %ld is %g instead of %g", (long) i, lc[i], c[i]);
    SCOTCH_graphExit (&sl); SCOTCH_geomExit (&gs); SCOTCH_geomExit (&gl); free (hx);
    free (tx); SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
}
