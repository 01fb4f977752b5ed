#include "vp.h"
#include "scotch.h"
/* graphCheck accepts exactly the well-formed graphs: random graphs, damaged in up to three places */
#define PAD 8
static Gnum *padded (const Gnum *s, Gnum n, Gnum fill) { Gnum i, *t = vp_malloc (sizeof (Gnum) * (n + 2 * PAD)); for (i = 0; i < n + 2 * PAD; i ++) t[i] = fill; if (s) memcpy (t + PAD, s, sizeof (Gnum) * n); return (t + PAD); }
static void vp_run (void) {
  VP_CASES ("check", 60000, 600000) {
    VG g; Graph a; Gnum *w, *edge, *edlo = NULL, *vert, *vend, *velo = NULL, i, k, r, nm; const char *why;
    w = vg_random (&g, vp_rand (20) ? 12 : 60, VG_VELO | VG_EDLO | VG_HOLES | VG_ZEROV | VG_VLBL);
    vg_graph (&a, &g);
    edge = padded (g.edge, g.edgesz, g.base);
    vert = padded (g.vert, g.compact ? g.n + 1 : g.n, g.base);
    vend = g.compact ? vert + 1 : padded (g.vend, g.n, g.base);
    if (g.edlo) edlo = padded (g.edlo, g.edgesz, 1);
    if (g.velo) velo = padded (g.velo, g.n, 1);
    a.edgetax = edge - g.base; a.verttax = vert - g.base; a.vendtax = vend - g.base;
    a.edlotax = edlo ? edlo - g.base : NULL; a.velotax = velo ? velo - g.base : NULL;
    nm = vp_rand (4);
    for (i = 0; i < nm; i ++) {
      Gnum v = vp_rand (g.n), e = g.m ? vp_rand (g.edgesz) : -1, d = vp_range (-2, 2);
      switch (vp_rand (16)) {
        case 0 : if (e >= 0) { edge[e] = g.base + vp_rand (g.n); vp_note (" edge[%ld]=%ld", (long) e, (long) edge[e]); } break;
        case 1 : if (e >= 0) { edge[e] += vp_range (-1, 1); vp_note (" edge[%ld]=%ld", (long) e, (long) edge[e]); } break;
        case 2 : if (e >= 0) { edge[e] = vp_rand (2) ? g.base - 1 : g.base + g.n; vp_note (" edge[%ld]=%ld", (long) e, (long) edge[e]); } break;
        case 3 : if (edlo && e >= 0) { edlo[e] += d; vp_note (" edlo[%ld]=%ld", (long) e, (long) edlo[e]); } break;
        case 4 : if (edlo && e >= 0) { edlo[e] = vp_range (-2, 0); vp_note (" edlo[%ld]=%ld", (long) e, (long) edlo[e]); } break;
        case 5 : if (velo) { velo[v] = vp_range (-2, 1); vp_note (" velo[%ld]=%ld", (long) v, (long) velo[v]); } break;
        case 6 : if (velo) { velo[v] += d; a.velosum += d; vp_note (" velo[%ld]+=%ld", (long) v, (long) d); } break;
        case 7 : a.velosum += d; vp_note (" velosum=%ld", (long) a.velosum); break;
        case 8 : a.edlosum += d; vp_note (" edlosum=%ld", (long) a.edlosum); break;
        case 9 : a.degrmax += d; vp_note (" degrmax=%ld", (long) a.degrmax); break;
        case 10 : a.edgenbr += vp_rand (2) ? d : 2 * d; vp_note (" edgenbr=%ld", (long) a.edgenbr); break;
        case 11 : vert[v] += d; if (vert[v] < g.base - 2) vert[v] = g.base - 2; if (vert[v] > g.base + g.edgesz + 2) vert[v] = g.base + g.edgesz + 2; vp_note (" vert[%ld]=%ld", (long) v, (long) vert[v]); break;
        case 12 : vend[v] += d; if (vend[v] < g.base - 2) vend[v] = g.base - 2; if (vend[v] > g.base + g.edgesz + 2) vend[v] = g.base + g.edgesz + 2; vp_note (" vend[%ld]=%ld", (long) v, (long) vend[v]); break;
        case 13 : if (vp_rand (2)) a.vertnbr += d; else { a.vertnbr -= 1; a.vertnnd -= 1; } if (a.vertnbr < -3) a.vertnbr = -3; vp_note (" vertnbr=%ld vertnnd=%ld", (long) a.vertnbr, (long) a.vertnnd); break;
        case 14 : /* change both arcs of an edge, consistently: remains well formed with a corrected sum */
          if (edlo && e >= 0) { Gnum u, f; for (u = 0; u < g.n; u ++) if (g.vert[u] - g.base <= e && e < g.vend[u] - g.base) break;
            if (u < g.n) { Gnum z = g.edge[e] - g.base; for (f = g.vert[z] - g.base; f < g.vend[z] - g.base; f ++) if (g.edge[f] - g.base == u) break;
              edlo[e] += d; edlo[f] += d; a.edlosum += 2 * d; vp_note (" edlo[%ld,%ld]+=%ld", (long) e, (long) f, (long) d); } } break;
        default : /* swap two arcs of a vertex (loads excepted) */
          if (g.vend[v] - g.vert[v] > 1) { Gnum b = g.vert[v] - g.base, t = edge[b]; edge[b] = edge[b + 1]; edge[b + 1] = t; if (vp_rand (2) && edlo) { t = edlo[b]; edlo[b] = edlo[b + 1]; edlo[b + 1] = t; } vp_note (" swap@%ld", (long) b); } break;
      }
    }
    why = vg_wellformed (&a);
    if (why == NULL && (a.edgenbr < 0 || (a.edgenbr & 1))) why = "edge count parity";
    if (why == NULL && a.degrmax < 0) why = "degree";
    if (nm && g.n > 2) { VP_NONTRIVIAL (); vp_keep (); }
    { Graph b = a; Gnum ne = g.edgesz + 2 * PAD; Gnum *ec = vp_malloc (sizeof (Gnum) * ne); memcpy (ec, edge - PAD, sizeof (Gnum) * ne);
      SCOTCH_Graph pub; memset (&pub, 0, sizeof (pub)); memcpy (&pub, &a, sizeof (Graph));
      k = graphCheck (&a); r = SCOTCH_graphCheck (&pub);
      VP_ASSERT (memcmp (&a, &b, sizeof (Graph)) == 0 && memcmp (ec, edge - PAD, sizeof (Gnum) * ne) == 0, "graph modified by the check");
      VP_ASSERT ((k == 0) == (r == 0), "the library routine and the internal routine disagree (%ld, %ld)", (long) r, (long) k);
      free (ec); }
    VP_ASSERT ((k == 0) == (why == NULL), "check %s a graph that is %s%s", k ? "rejects" : "accepts", why ? "ill formed: " : "well formed", why ? why : "");
    free (edge - PAD); free (vert - PAD); if (! g.compact) free (vend - PAD); if (edlo) free (edlo - PAD); if (velo) free (velo - PAD);
    vg_free (&g); free (w);
  }
}
