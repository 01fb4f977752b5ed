#include "vp.h"
#include "context.h"
#include "scotch.h"
static void vp_run (void) {
  VP_CASES ("color", 6000, 100000) {
    VG g; Graph a; Gnum *w, i, e, nb = -7, *col, *col2, *used; SCOTCH_Graph so, sc; SCOTCH_Context ctx; int r, mode;
    w = vg_random (&g, vp_rand (10) ? 24 : 150, VG_VELO | VG_EDLO | VG_HOLES);
    vg_graph (&a, &g);
    memset (&so, 0, sizeof (so)); memcpy (&so, &a, sizeof (Graph));
    col = vp_malloc (sizeof (Gnum) * (g.n + 2)); for (i = 0; i < g.n + 2; i ++) col[i] = -99;
    mode = (int) vp_rand (4);
    vp_note (" mode=%d", mode);
    if (mode == 0) {
      SCOTCH_contextInit (&ctx); SCOTCH_contextRandomClone (&ctx); SCOTCH_contextRandomSeed (&ctx, vp_rand (1000)); SCOTCH_contextRandomReset (&ctx);
      memset (&sc, 0, sizeof (sc)); SCOTCH_contextBindGraph (&ctx, &so, &sc); r = SCOTCH_graphColor (&sc, col + 1, &nb, 0); SCOTCH_contextExit (&ctx);
    }
    else {
      if (mode == 1) { Gnum s = vp_rand (1000); SCOTCH_randomSeed (s); SCOTCH_randomReset (); vp_note (" seed=%ld", (long) s); }
      r = SCOTCH_graphColor (&so, col + 1, &nb, 0);
    }
    VP_ASSERT (r == 0, "colouring fails: %s", vp_lasterr);
    if (g.m > 4) { VP_NONTRIVIAL (); vp_keep (); }
    VP_ASSERT (col[0] == -99 && col[g.n + 1] == -99, "written outside of the colour array");
    VP_ASSERT (nb >= (g.n > 0) && nb <= g.n, "number of colours %ld", (long) nb);
    used = vp_malloc (sizeof (Gnum) * (nb + 1)); memset (used, 0, sizeof (Gnum) * (nb + 1));
    for (i = 0; i < g.n; i ++) {
      VP_ASSERT (col[i + 1] >= 0 && col[i + 1] < nb, "colour of vertex %ld out of range: %ld", (long) i, (long) col[i + 1]);
      used[col[i + 1]] = 1;
      for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) VP_ASSERT (col[g.edge[e] - g.base + 1] != col[i + 1], "neighbours %ld and %ld have the same colour", (long) i, (long) (g.edge[e] - g.base));
    }
    for (i = 0; i < nb; i ++) VP_ASSERT (used[i], "colour %ld not used", (long) i);
    if (mode == 1) { /* same generator state, same colouring */
      Gnum nb2; col2 = vp_malloc (sizeof (Gnum) * (g.n + 1)); SCOTCH_randomReset (); r = SCOTCH_graphColor (&so, col2, &nb2, 0);
      VP_ASSERT (r == 0 && nb2 == nb && memcmp (col2, col + 1, sizeof (Gnum) * g.n) == 0, "colouring differs with the same generator state"); free (col2); }
    free (used); free (col); vg_free (&g); free (w);
  }
}
