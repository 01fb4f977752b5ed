#include "vp.h"
#include "context.h"
#include "scotch.h"
/* induced subgraph against the definition; list / part, through the internal and the public routines, with and without context */
static void check (const Graph *o, const Graph *s, const Gnum *list, Gnum k) {
  Gnum i, j, e, f, vs = 0, es = 0;
  VP_ASSERT (s->baseval == o->baseval && s->vertnbr == k && s->vertnnd == k + o->baseval, "vertex count %ld instead of %ld", (long) s->vertnbr, (long) k);
  VP_ASSERT ((s->velotax == NULL) == (o->velotax == NULL), "vertex loads appeared or vanished");
  VP_ASSERT ((s->edlotax == NULL) == (o->edlotax == NULL), "edge loads appeared or vanished");
  Gnum *pos = vp_malloc (sizeof (Gnum) * (o->vertnbr + 1));
  for (i = 0; i < o->vertnbr; i ++) pos[i] = -1;
  for (i = 0; i < k; i ++) pos[list[i] - o->baseval] = i;
  for (i = 0; i < k; i ++) {
    Gnum v = list[i], u = i + o->baseval;
    VP_ASSERT (s->vnumtax != NULL && s->vnumtax[u] == (o->vnumtax ? o->vnumtax[v] : v), "original number of vertex %ld", (long) u);
    if (s->velotax) { VP_ASSERT (s->velotax[u] == o->velotax[v], "load of vertex %ld", (long) u); vs += s->velotax[u]; } else vs ++;
    f = s->verttax[u];
    VP_ASSERT (f >= s->baseval && s->vendtax[u] >= f, "arc range");
    for (e = o->verttax[v]; e < o->vendtax[v]; e ++) {
      j = pos[o->edgetax[e] - o->baseval];
      if (j < 0) continue;
      VP_ASSERT (f < s->vendtax[u] && s->edgetax[f] == j + o->baseval, "arc of vertex %ld missing or out of order", (long) u);
      if (s->edlotax) { VP_ASSERT (s->edlotax[f] == o->edlotax[e], "arc load"); es += s->edlotax[f]; } else es ++;
      f ++;
    }
    VP_ASSERT (f == s->vendtax[u], "extra arc of vertex %ld", (long) u);
  }
  VP_ASSERT (s->velosum == vs && s->edlosum == es, "load sums %ld %ld instead of %ld %ld", (long) s->velosum, (long) s->edlosum, (long) vs, (long) es);
  const char *w = vg_wellformed (s);
  VP_ASSERT (w == NULL, "induced graph is not well formed: %s", w);
  free (pos);
}
static void vp_run (void) {
  VP_CASES ("induce", 12000, 200000) {
    VG g; Graph a; Gnum *w, *vn = NULL, *list, k = 0, i, j; int mode; GraphPart *part, pv;
    SCOTCH_Graph so, ss, sc; SCOTCH_Context ctx; Graph s;
    w = vg_random (&g, vp_rand (20) ? 20 : 80, VG_VELO | VG_EDLO | VG_HOLES | VG_ZEROV);
    vg_graph (&a, &g);
    if (vp_rand (3) == 0) { vn = vp_malloc (sizeof (Gnum) * (g.n + 1)); for (i = 0; i < g.n; i ++) vn[i] = vp_rand (100); a.vnumtax = vn - g.base; }
    if (vp_rand (6) == 0) a.degrmax += vp_rand (3);
    list = vp_malloc (sizeof (Gnum) * (g.n + 1)); part = vp_malloc (g.n + 1);
    pv = (GraphPart) vp_rand (4);
    { int dens = (int) vp_range (0, 8); for (i = 0; i < g.n; i ++) { part[i] = (vp_rand (8) < dens) ? pv : (GraphPart) vp_rand (5); if (part[i] == pv) list[k ++] = i + g.base; } }
    mode = (int) vp_rand (6);
    if (mode < 3) for (i = k - 1; i > 0 && vp_rand (4); i --) { Gnum t; j = vp_rand (i + 1); t = list[i]; list[i] = list[j]; list[j] = t; }
    vp_note (" mode=%d part=%d", mode, pv); vp_arr ("list", list, k); if (vn) vp_arr ("vnum", vn, g.n);
    if (k > 1 && k < g.n) { VP_NONTRIVIAL (); vp_keep (); }
    Gnum *lc = vp_malloc (sizeof (Gnum) * (k + 1)); memcpy (lc, list, sizeof (Gnum) * k);
    Graph a0 = a; Gnum *ec = vp_malloc (sizeof (Gnum) * (g.edgesz + 1)); memcpy (ec, g.edge, sizeof (Gnum) * g.edgesz);
    memset (&so, 0, sizeof (so)); memcpy (&so, &a, sizeof (Graph));
    memset (&ss, 0xA5, sizeof (ss));
    int r;
    switch (mode) {
      case 0 : r = graphInduceList (&a, k, list, (Graph *) &ss); break;
      case 1 : SCOTCH_graphInit (&ss); r = SCOTCH_graphInduceList (&so, k, list, &ss); break;
      case 2 : SCOTCH_contextInit (&ctx); SCOTCH_graphInit (&ss); memset (&sc, vp_rand (2) ? 0 : 0x11, sizeof (sc)); SCOTCH_contextBindGraph (&ctx, &so, &sc); r = SCOTCH_graphInduceList (&sc, k, list, &ss); SCOTCH_contextExit (&ctx); break;
      case 3 : r = graphInducePart (&a, part - g.base, k, pv, (Graph *) &ss); break;
      case 4 : SCOTCH_graphInit (&ss); r = SCOTCH_graphInducePart (&so, k, part, pv, &ss); break;
      default : SCOTCH_contextInit (&ctx); SCOTCH_graphInit (&ss); memset (&sc, vp_rand (2) ? 0 : 0x11, sizeof (sc)); SCOTCH_contextBindGraph (&ctx, &so, &sc); r = SCOTCH_graphInducePart (&sc, k, part, pv, &ss); SCOTCH_contextExit (&ctx); break;
    }
    VP_ASSERT (r == 0, "inducing fails: %s", vp_lasterr);
    VP_ASSERT (memcmp (&a, &a0, sizeof (a)) == 0 && memcmp (ec, g.edge, sizeof (Gnum) * g.edgesz) == 0 && memcmp (lc, list, sizeof (Gnum) * k) == 0, "input modified");
    memcpy (&s, &ss, sizeof (s));
    check (&a, &s, lc, k);
    graphExit ((Graph *) &ss);
    free (lc); free (ec); free (list); free (part); free (vn); vg_free (&g); free (w);
  }
}
