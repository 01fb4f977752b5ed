#include "vp.h"
static void vp_run (void) {
  VP_CASES ("rebase", 4000, 60000) {
    VG g; Graph a; Gnum *w, *vn = NULL, i, j, nb, e;
    w = vg_random (&g, 40, VG_VELO | VG_EDLO | VG_HOLES | VG_VLBL);
    vg_graph (&a, &g);
    if (vp_rand (3) == 0) { vn = vp_malloc (sizeof (Gnum) * (g.n + 1)); for (i = 0; i < g.n; i ++) vn[i] = vp_rand (100); a.vnumtax = vn - g.base; }
    nb = vp_rand (4) ? vp_rand (2) : vp_rand (8);
    { Gnum *velo0 = NULL, *edlo0 = NULL, *vlbl0 = NULL, *vn0 = NULL;
#define CP(d,s,k) if (s) { d = vp_malloc (sizeof (Gnum) * ((k) + 1)); memcpy (d, s, sizeof (Gnum) * (k)); }
    CP (velo0, g.velo, g.n) CP (edlo0, g.edlo, g.edgesz) CP (vlbl0, g.vlbl, g.n) CP (vn0, vn, g.n)
    Gnum *vert0 = vp_malloc (sizeof (Gnum) * (g.n + 1)), *vend0 = vp_malloc (sizeof (Gnum) * (g.n + 1)), *edge0 = vp_malloc (sizeof (Gnum) * (g.edgesz + 1));
    memcpy (vert0, g.vert, sizeof (Gnum) * g.n); memcpy (vend0, g.vend, sizeof (Gnum) * g.n); memcpy (edge0, g.edge, sizeof (Gnum) * g.edgesz);
    vp_note (" newbase=%ld", (long) nb);
    Gnum ob = graphBase (&a, nb);
    if (g.n > 1 && nb != g.base) { VP_NONTRIVIAL (); vp_keep (); }
    VP_ASSERT (ob == g.base, "old base value not returned");
    VP_ASSERT (a.baseval == nb && a.vertnbr == g.n && a.vertnnd == nb + g.n, "base or vertex bounds wrong");
    VP_ASSERT (a.edgenbr == g.m, "edge count changed");
    for (i = 0; i < g.n; i ++) {
      VP_ASSERT (a.verttax[nb + i] == vert0[i] - g.base + nb, "vertex %ld start", (long) i);
      VP_ASSERT (a.vendtax[nb + i] == vend0[i] - g.base + nb, "vertex %ld end", (long) i);
      if (velo0) VP_ASSERT (a.velotax[nb + i] == velo0[i], "vertex %ld load", (long) i);
      if (vlbl0) VP_ASSERT (a.vlbltax[nb + i] == vlbl0[i], "vertex %ld label", (long) i);
      if (vn0) VP_ASSERT (a.vnumtax[nb + i] == vn0[i], "vertex %ld original number", (long) i);
      for (j = vert0[i] - g.base; j < vend0[i] - g.base; j ++) {
        VP_ASSERT (a.edgetax[nb + j] == edge0[j] - g.base + nb, "edge slot %ld", (long) j);
        if (edlo0) VP_ASSERT (a.edlotax[nb + j] == edlo0[j], "edge load slot %ld", (long) j);
      }
    }
    for (e = 0; e < g.edgesz; e ++) { Gnum in = 0; for (i = 0; i < g.n; i ++) if (vert0[i] - g.base <= e && e < vend0[i] - g.base) in = 1; if (! in) VP_ASSERT (g.edge[e] == edge0[e], "slot outside every adjacency modified"); }
    VP_ASSERT ((a.velotax == NULL) == (velo0 == NULL) && (a.edlotax == NULL) == (edlo0 == NULL) && (a.vlbltax == NULL) == (vlbl0 == NULL) && (a.vnumtax == NULL) == (vn0 == NULL), "optional array appeared or vanished");
    VP_ASSERT (graphBase (&a, g.base) == nb, "second old base value");
    VP_ASSERT (memcmp (vert0, g.vert, sizeof (Gnum) * g.n) == 0 && memcmp (vend0, g.vend, sizeof (Gnum) * g.n) == 0 && memcmp (edge0, g.edge, sizeof (Gnum) * g.edgesz) == 0 && a.verttax == g.vert - g.base, "rebasing back does not restore");
    free (velo0); free (edlo0); free (vlbl0); free (vn0); free (vert0); free (vend0); free (edge0); free (vn); }
    vg_free (&g); free (w);
  }
}
