#include "vp.h"
#include "context.h"
#include "scotch.h"
/* what a built graph reports: sizes, arrays, sums, statistics, pseudo-diameter */
#define NOV 0x11223344
static int near (double a, double b) { double d = a > b ? a - b : b - a, m = (a < 0 ? -a : a) + (b < 0 ? -b : b) + 1.0; return (d <= 1e-9 * m); }
static double dabs (double x) { return (x < 0 ? -x : x); }
static void vp_run (void) {
  VP_CASES ("data", 30000, 300000) {
    VG g; Gnum *w, i, j, e; SCOTCH_Graph so, sc, *sp; SCOTCH_Context ctx; int r, bind, form; Graph *a;
    w = vg_random (&g, vp_rand (20) ? 16 : 60, VG_VELO | VG_EDLO | VG_HOLES | VG_ZEROV | VG_VLBL);
    if (g.edlo && vp_rand (3) == 0) for (i = 0; i < g.n; i ++) for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) if (w[i * g.n + g.edge[e] - g.base] == 1) g.edlo[e] = 0;
    if (g.velo && vp_rand (8) == 0) for (i = 0; i < g.n; i ++) g.velo[i] = vp_range (7, 9);
    form = (int) vp_rand (4); bind = vp_rand (3) == 0;
    vp_note (" form=%d context=%d", form, bind);
    SCOTCH_graphInit (&so);
    Gnum *vendarg = g.compact ? ((form & 1) ? NULL : ((form & 2) ? g.vert : g.vend)) : g.vend;
    r = SCOTCH_graphBuild (&so, g.base, g.n, g.vert, vendarg, g.velo ? g.velo : ((form & 1) ? g.vert : NULL), g.vlbl ? g.vlbl : ((form & 2) ? g.vert : NULL), g.m, g.edge, g.edlo ? g.edlo : ((form & 1) ? g.edge : NULL));
    VP_ASSERT (r == 0, "building fails: %s", vp_lasterr);
    sp = &so;
    if (bind) { SCOTCH_contextInit (&ctx); memset (&sc, vp_rand (2) ? 0 : 0x11, sizeof (sc)); SCOTCH_contextBindGraph (&ctx, &so, &sc); sp = &sc; }
    if (g.m > 4) { VP_NONTRIVIAL (); vp_keep (); }
    { Gnum vn = NOV, en = NOV; SCOTCH_graphSize (sp, vp_rand (5) ? &vn : NULL, vp_rand (5) ? &en : NULL);
      VP_ASSERT ((vn == NOV || vn == g.n) && (en == NOV || en == g.m), "size %ld %ld", (long) vn, (long) en); }
    { Gnum b = NOV, n = NOV, m = NOV; SCOTCH_Num *t[6]; int k; unsigned ask = (unsigned) vp_rand (8) ? 0x3f : (unsigned) vp_rand (64); static SCOTCH_Num mark;
      for (k = 0; k < 6; k ++) t[k] = &mark;
      SCOTCH_graphData (sp, &b, &n, (ask & 1) ? &t[0] : NULL, (ask & 2) ? &t[1] : NULL, (ask & 4) ? &t[2] : NULL, (ask & 8) ? &t[3] : NULL, &m, (ask & 16) ? &t[4] : NULL, (ask & 32) ? &t[5] : NULL);
      VP_ASSERT (b == g.base && n == g.n && m == g.m, "data %ld %ld %ld", (long) b, (long) n, (long) m);
      SCOTCH_Num *want[6] = { g.vert, g.vend, g.velo, g.vlbl, g.edge, g.edlo };
      for (k = 0; k < 6; k ++) VP_ASSERT (t[k] == ((ask >> k) & 1 ? want[k] : &mark), "array %d of the graph data", k); }
    a = (Graph *) &so;
    { Gnum vs = 0, es = 0, dm = 0, vmin = NOV, vmax = -1, dmin = NOV, dmax = -1, emin = NOV, emax = -1; double vd = 0, dd = 0, ed = 0, va, da, ea;
      for (i = 0; i < g.n; i ++) {
        Gnum v = g.velo ? g.velo[i] : 1, d = g.vend[i] - g.vert[i];
        vs += v; if (v < vmin) vmin = v; if (v > vmax) vmax = v;
        if (d < dmin) dmin = d; if (d > dmax) dmax = d; if (d > dm) dm = d;
        for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) { Gnum x = g.edlo ? g.edlo[e] : 1; es += x; if (x < emin) emin = x; if (x > emax) emax = x; }
      }
      VP_ASSERT (a->velosum == vs && a->edlosum == es && a->degrmax == dm, "sums kept in the graph: %ld %ld, maximum degree %ld", (long) a->velosum, (long) a->edlosum, (long) a->degrmax);
      va = (double) vs / g.n; da = (double) g.m / g.n; ea = g.m ? (double) es / g.m : 0;
      for (i = 0; i < g.n; i ++) {
        vd += dabs ((g.velo ? g.velo[i] : 1) - va); dd += dabs ((g.vend[i] - g.vert[i]) - da);
        for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) ed += dabs ((g.edlo ? g.edlo[e] : 1) - ea);
      }
      vd /= g.n; dd /= g.n; if (g.m) ed /= g.m; else { emin = emax = 0; }
      Gnum q[8]; double f[6]; int k; unsigned ask = vp_rand (6) ? ~0u : (unsigned) vp_rand (1 << 14);
      for (k = 0; k < 8; k ++) q[k] = NOV; for (k = 0; k < 6; k ++) f[k] = -7.5;
#define A(k,p) (((ask >> (k)) & 1) ? (p) : NULL)
      SCOTCH_graphStat (sp, A (0, &q[0]), A (1, &q[1]), A (2, &q[2]), A (3, &f[0]), A (4, &f[1]), A (5, &q[3]), A (6, &q[4]), A (7, &f[2]), A (8, &f[3]), A (9, &q[5]), A (10, &q[6]), A (11, &q[7]), A (12, &f[4]), A (13, &f[5]));
      Gnum want[8] = { vmin, vmax, vs, dmin, dmax, emin, emax, g.edlo ? es : g.m / 2 }; static const int bit[8] = { 0, 1, 2, 5, 6, 9, 10, 11 };
      double wf[6] = { va, vd, da, dd, ea, ed }; static const int fb[6] = { 3, 4, 7, 8, 12, 13 };
      if (g.m == 0) want[7] = 0;
      for (k = 0; k < 8; k ++) VP_ASSERT (q[k] == (((ask >> bit[k]) & 1) ? want[k] : NOV), "statistic %d is %ld instead of %ld", k, (long) q[k], (long) want[k]);
      for (k = 0; k < 6; k ++) VP_ASSERT (((ask >> fb[k]) & 1) ? near (f[k], wf[k]) : f[k] == -7.5, "average or deviation %d is %g instead of %g", k, f[k], wf[k]);
    }
    if (! g.vlbl || 1) VP_ASSERT (SCOTCH_graphCheck (sp) == 0, "a well-formed graph is refused: %s", vp_lasterr);
    if (g.n <= 24) { /* pseudo-diameter */
      Gnum n = g.n, dia = 0, seen = 0, pd; double *d = vp_malloc (sizeof (double) * n * n); int conn = 1;
      const double INF = 1e15;
      for (i = 0; i < n; i ++) { /* distance from i: loads of the edges and of the vertices left */
        char *done = vp_malloc (n); memset (done, 0, n);
        for (j = 0; j < n; j ++) d[i * n + j] = INF;
        d[i * n + i] = 0;
        for (;;) {
          Gnum u = -1;
          for (j = 0; j < n; j ++) if (! done[j] && d[i * n + j] < INF && (u < 0 || d[i * n + j] < d[i * n + u])) u = j;
          if (u < 0) break;
          done[u] = 1;
          for (e = g.vert[u] - g.base; e < g.vend[u] - g.base; e ++) { Gnum x = g.edge[e] - g.base; double y = d[i * n + u] + (g.velo ? g.velo[u] : 0) + (g.edlo ? g.edlo[e] : 1); if (y < d[i * n + x]) d[i * n + x] = y; }
        }
        free (done);
      }
      Gnum *ecc = vp_malloc (sizeof (Gnum) * n);
      for (i = 0; i < n; i ++) { ecc[i] = 0; for (j = 0; j < n; j ++) { if (d[i * n + j] >= INF) { conn = 0; continue; } if (d[i * n + j] > ecc[i]) ecc[i] = (Gnum) d[i * n + j]; } if (ecc[i] > dia) dia = ecc[i]; }
      pd = SCOTCH_graphDiamPV (sp);
      if (! conn) VP_ASSERT (pd == GNUMMAX, "pseudo-diameter of a disconnected graph: %ld", (long) pd);
      else {
        for (i = 0; i < n; i ++) seen |= (ecc[i] == pd);
        VP_ASSERT (seen, "pseudo-diameter %ld is not the longest distance from any vertex", (long) pd);
        if (! g.velo) VP_ASSERT (2 * pd >= dia, "pseudo-diameter %ld below half of the diameter %ld", (long) pd, (long) dia);
      }
      free (ecc); free (d);
    }
    if (bind) SCOTCH_contextExit (&ctx);
    SCOTCH_graphExit (&so); vg_free (&g); free (w);
  }
}
