#include "vp.h"
#include "context.h"
#include "geom.h"
#include "mesh.h"
#include "mesh_graph.h"
#include "scotch.h"
#include "vmesh.h"
#include "vio.h"
#include <math.h>
#include <errno.h>
/* meshes: what is built, checked, converted to graphs, saved and loaded is the mesh of the arrays */
static const char *vm_wellformed (const Mesh *m) { /* every range inside the edge array is assumed */
  Gnum b = m->baseval, n = m->velmnbr + m->vnodnbr, v, e, f, deg = 0, iso = 0, vs = 0, ns = 0;
  if (m->velmnbr < 0 || m->vnodnbr < 0 || m->velmnnd != m->velmbas + m->velmnbr || m->vnodnnd != m->vnodbas + m->vnodnbr || (m->velmnnd != m->vnodbas && m->vnodnnd != m->velmbas)) return ("ranges");
  for (v = b; v < b + n; v ++) {
    int el = v >= m->velmbas && v < m->velmnnd;
    if (m->verttax[v] < b || m->vendtax[v] < m->verttax[v]) return ("adjacency range");
    if (m->vendtax[v] - m->verttax[v] > deg) deg = m->vendtax[v] - m->verttax[v];
    if (el && m->vendtax[v] == m->verttax[v]) iso ++;
  }
  for (v = b; v < b + n; v ++) {
    int el = v >= m->velmbas && v < m->velmnnd;
    for (e = m->verttax[v]; e < m->vendtax[v]; e ++) {
      Gnum u = m->edgetax[e], k = 0;
      if (u < b || u >= b + n) return ("arc end");
      if ((u >= m->velmbas && u < m->velmnnd) == el) return ("arc between vertices of the same kind");
      for (f = m->verttax[u]; f < m->vendtax[u]; f ++) k += m->edgetax[f] == v;
      if (k != 1) return ("arcs that do not match");
    }
  }
  if (iso != m->veisnbr) return ("isolated elements");
  if (m->velotax == NULL) vs = m->velmnbr; else for (v = m->velmbas; v < m->velmnnd; v ++) { if (m->velotax[v] < 1) return ("element load"); vs += m->velotax[v]; }
  if (m->vnlotax == NULL) ns = m->vnodnbr; else for (v = m->vnodbas; v < m->vnodnnd; v ++) { if (m->vnlotax[v] < 1) return ("node load"); ns += m->vnlotax[v]; }
  if (vs != m->velosum) return ("element load sum");
  if (ns != m->vnlosum) return ("node load sum");
  if (m->degrmax < deg) return ("maximum degree");
  return (NULL);
}
/* the structure holds the generated mesh, moved to base nb; loads that are all 1 may be dropped */
static int ones (const Gnum *t, Gnum n) { Gnum i; if (t) for (i = 0; i < n; i ++) if (t[i] != 1) return (0); return (1); }
static void mesh_same (const VM *g, const Mesh *a, Gnum nb, int order, int file) {
  Gnum i, j, d, dm = 0, n = g->ne + g->nn, iso = 0; const char *why = vm_wellformed (a);
  VP_ASSERT (why == NULL, "mesh not well formed: %s", why ? why : "");
  VP_ASSERT (a->baseval == nb && a->velmnbr == g->ne && a->vnodnbr == g->nn && a->velmbas == g->velmbas - g->base + nb && a->vnodbas == g->vnodbas - g->base + nb && a->velmnnd == a->velmbas + g->ne && a->vnodnnd == a->vnodbas + g->nn && a->edgenbr == g->m, "sizes: base %ld, elements %ld at %ld, nodes %ld at %ld, %ld arcs", (long) a->baseval, (long) a->velmnbr, (long) a->velmbas, (long) a->vnodnbr, (long) a->vnodbas, (long) a->edgenbr);
  for (i = 0; i < g->ne; i ++) VP_ASSERT ((a->velotax ? a->velotax[a->velmbas + i] : 1) == (g->velo ? g->velo[i] : 1), "load of element %ld", (long) i);
  for (i = 0; i < g->nn; i ++) VP_ASSERT ((a->vnlotax ? a->vnlotax[a->vnodbas + i] : 1) == (g->vnlo ? g->vnlo[i] : 1), "load of node %ld", (long) i);
  for (i = 0; i < n; i ++) {
    d = g->vend[i] - g->vert[i]; if (d > dm) dm = d;
    VP_ASSERT (a->vendtax[nb + i] - a->verttax[nb + i] == d, "degree of vertex %ld", (long) i);
    for (j = 0; j < d; j ++) VP_ASSERT (a->edgetax[a->verttax[nb + i] + j] - nb == g->edge[g->vert[i] - g->base + j] - g->base, "arc %ld of vertex %ld", (long) j, (long) i);
  }
  VP_ASSERT (a->degrmax == dm, "maximum degree %ld instead of %ld", (long) a->degrmax, (long) dm);
}
static int near (double a, double b) { double d = fabs (a - b); return (d <= 1e-9 * (fabs (a) + fabs (b) + 1.0)); }
#define PAD 8
static Gnum *padded (const Gnum *s, Gnum n, Gnum fill) { Gnum i, *t = vp_malloc (sizeof (Gnum) * (n + 2 * PAD)); for (i = 0; i < n + 2 * PAD; i ++) t[i] = fill; if (s) memcpy (t + PAD, s, sizeof (Gnum) * n); return (t + PAD); }
/* a stream that refuses one write, after some bytes */
static long wleft; static int wbad;
static ssize_t wfail (void *c, const char *b, size_t n) { if (! wbad && wleft < (long) n) { wbad = 1; errno = ENOSPC; return (0); } wleft -= n; return (n); }
static void tryload (const char *s, size_t n, Gnum nb) {
  SCOTCH_Mesh sl; FILE *f = ropen (s, n); int r; const char *why;
  SCOTCH_meshInit (&sl); r = SCOTCH_meshLoad (&sl, f, nb); fclose (f);
  if (r == 0) { why = vm_wellformed ((Mesh *) &sl); VP_ASSERT (why == NULL, "mesh loaded from a damaged file not well formed: %s", why ? why : ""); SCOTCH_meshExit (&sl); }
}
/* graph whose vertices are the nt objects, adjacent when sh (a, b) */
static void adj_same (const Graph *a, Gnum base, Gnum n, const unsigned char *adj, const char *what) {
  Gnum i, j, e, d, dm = 0, m = 0; unsigned char *seen = vp_malloc (n + 1); const char *why = vg_wellformed (a);
  VP_ASSERT (why == NULL, "%s not well formed: %s", what, why ? why : "");
  VP_ASSERT (a->baseval == base && a->vertnbr == n && a->vertnnd == n + base, "%s: base %ld, %ld vertices", what, (long) a->baseval, (long) a->vertnbr);
  for (i = 0; i < n; i ++) {
    memset (seen, 0, n); d = 0;
    for (e = a->verttax[base + i]; e < a->vendtax[base + i]; e ++) { j = a->edgetax[e] - base; VP_ASSERT (j >= 0 && j < n && ! seen[j], "%s: arc of vertex %ld", what, (long) i); seen[j] = 1; d ++; }
    for (j = 0; j < n; j ++) VP_ASSERT (seen[j] == adj[i * n + j], "%s: vertices %ld and %ld are %sadjacent", what, (long) i, (long) j, seen[j] ? "" : "not ");
    if (d > dm) dm = d; m += d;
  }
  VP_ASSERT (a->edgenbr == m && a->edlosum == m && a->degrmax == dm && a->edlotax == NULL && a->vlbltax == NULL, "%s: %ld arcs, maximum degree %ld", what, (long) a->edgenbr, (long) a->degrmax);
  free (seen);
}
static int labelled (void) { /* two elements, three nodes, labels, base 1: both kinds are numbered from the base */
  static const char f[] = "1\n2 3 8\n1 3 100\n1 2 1 2\n2 2 2 3\n1 1 1\n2 2 1 2\n3 1 2\n"; SCOTCH_Mesh sl; FILE *x = ropen (f, sizeof (f) - 1); Mesh *a = (Mesh *) &sl; int bad;
  SCOTCH_meshInit (&sl); bad = SCOTCH_meshLoad (&sl, x, -1) != 0; fclose (x);
  if (! bad) { bad = a->edgetax[1] != 3 || a->edgetax[2] != 4 || a->edgetax[5] != 1; SCOTCH_meshExit (&sl); }
  return (bad);
}
static void vp_run (void) {
  vp_known ("mesh-labels", labelled);
  VP_CASES ("data", 20000, 200000) {
    VM g; SCOTCH_Mesh so; Gnum i, n; Mesh *a = (Mesh *) &so; int form = (int) vp_rand (4); Gnum *ec;
    vm_random (&g, vp_rand (20) ? 12 : 60, VM_VELO | VM_VNLO | VM_HOLES | VM_ISO | VM_VLBL); n = g.ne + g.nn;
    ec = vp_malloc (sizeof (Gnum) * g.edgesz + 1); memcpy (ec, g.edge, sizeof (Gnum) * g.edgesz);
    vp_note (" form=%d", form); if (g.m > 6) { VP_NONTRIVIAL (); vp_keep (); }
    SCOTCH_meshInit (&so);
    VP_ASSERT (SCOTCH_meshBuild (&so, g.velmbas, g.vnodbas, g.ne, g.nn, g.vert, g.compact ? ((form & 1) ? NULL : ((form & 2) ? g.vert : g.vend)) : g.vend, g.velo ? g.velo : ((form & 1) ? g.vert : NULL), g.vnlo ? g.vnlo : ((form & 2) ? g.vert : NULL), g.vlbl ? g.vlbl : ((form & 1) ? g.vert : NULL), g.m, g.edge) == 0, "building fails: %s", vp_lasterr);
    mesh_same (&g, a, g.base, 1, 0);
    VP_ASSERT (SCOTCH_meshCheck (&so) == 0, "a well-formed mesh is refused");
    { Gnum q[3] = { -7, -7, -7 }; unsigned ask = (unsigned) vp_rand (8);
      SCOTCH_meshSize (&so, (ask & 1) ? &q[0] : NULL, (ask & 2) ? &q[1] : NULL, (ask & 4) ? &q[2] : NULL);
      VP_ASSERT (q[0] == ((ask & 1) ? g.ne : -7) && q[1] == ((ask & 2) ? g.nn : -7) && q[2] == ((ask & 4) ? g.m : -7), "sizes %ld %ld %ld", (long) q[0], (long) q[1], (long) q[2]); }
    { static SCOTCH_Num mark; SCOTCH_Num *t[6], q[6], dm = 0; unsigned ask = vp_rand (4) ? ~0u : (unsigned) vp_rand (1 << 12); int k;
      for (k = 0; k < 6; k ++) t[k] = &mark, q[k] = -7;
      for (i = 0; i < n; i ++) if (g.vend[i] - g.vert[i] > dm) dm = g.vend[i] - g.vert[i];
#define A(k,p) (((ask >> (k)) & 1) ? (p) : NULL)
      SCOTCH_meshData (&so, A (0, &q[0]), A (1, &q[1]), A (2, &q[2]), A (3, &q[3]), A (4, &t[0]), A (5, &t[1]), A (6, &t[2]), A (7, &t[3]), A (8, &t[4]), A (9, &q[4]), A (10, &t[5]), A (11, &q[5]));
      SCOTCH_Num wq[6] = { g.velmbas, g.vnodbas, g.ne, g.nn, g.m, dm }, *wt[6] = { g.vert, g.vend, g.velo, g.vnlo, g.vlbl, g.edge }; static const int bq[6] = { 0, 1, 2, 3, 9, 11 }, bt[6] = { 4, 5, 6, 7, 8, 10 };
      for (k = 0; k < 6; k ++) { VP_ASSERT (q[k] == (((ask >> bq[k]) & 1) ? wq[k] : -7), "number %d of the mesh data is %ld", k, (long) q[k]); VP_ASSERT (t[k] == (((ask >> bt[k]) & 1) ? wt[k] : &mark), "array %d of the mesh data", k); } }
    { SCOTCH_Num q[7]; double f[6]; unsigned ask = vp_rand (4) ? ~0u : (unsigned) vp_rand (1 << 13); int k; Gnum ns = 0, nmin = 0x7fffffff, nmax = 0, emin = 0x7fffffff, emax = 0, dmin = 0x7fffffff, dmax = 0; double na, nd = 0, ea, ed = 0, da, dd = 0;
      for (k = 0; k < 7; k ++) q[k] = -7; for (k = 0; k < 6; k ++) f[k] = -7.5;
      SCOTCH_meshStat (&so, A (0, &q[0]), A (1, &q[1]), A (2, &q[2]), A (3, &f[0]), A (4, &f[1]), A (5, &q[3]), A (6, &q[4]), A (7, &f[2]), A (8, &f[3]), A (9, &q[5]), A (10, &q[6]), A (11, &f[4]), A (12, &f[5]));
      for (i = 0; i < g.nn; i ++) { Gnum x = g.vnlo ? g.vnlo[i] : 1, v = g.vnodbas - g.base + i, d = g.vend[v] - g.vert[v]; ns += x; if (x < nmin) nmin = x; if (x > nmax) nmax = x; if (d < dmin) dmin = d; if (d > dmax) dmax = d; }
      for (i = 0; i < g.ne; i ++) { Gnum v = g.velmbas - g.base + i, d = g.vend[v] - g.vert[v]; if (d < emin) emin = d; if (d > emax) emax = d; }
      na = (double) ns / g.nn; ea = (double) g.m / 2 / g.ne; da = (double) g.m / 2 / g.nn;
      for (i = 0; i < g.nn; i ++) { Gnum v = g.vnodbas - g.base + i; nd += fabs ((g.vnlo ? g.vnlo[i] : 1) - na); dd += fabs (g.vend[v] - g.vert[v] - da); }
      for (i = 0; i < g.ne; i ++) { Gnum v = g.velmbas - g.base + i; ed += fabs (g.vend[v] - g.vert[v] - ea); }
      nd /= g.nn; dd /= g.nn; ed /= g.ne;
      SCOTCH_Num wq[7] = { nmin, nmax, ns, emin, emax, dmin, dmax }; double wf[6] = { na, nd, ea, ed, da, dd }; static const int bq[7] = { 0, 1, 2, 5, 6, 9, 10 }, bf[6] = { 3, 4, 7, 8, 11, 12 };
      for (k = 0; k < 7; k ++) VP_ASSERT (q[k] == (((ask >> bq[k]) & 1) ? wq[k] : -7), "statistic %d is %ld instead of %ld", k, (long) q[k], (long) wq[k]);
      for (k = 0; k < 6; k ++) VP_ASSERT (((ask >> bf[k]) & 1) ? near (f[k], wf[k]) : f[k] == -7.5, "average or deviation %d is %g instead of %g", k, f[k], wf[k]); }
    VP_ASSERT (memcmp (ec, g.edge, sizeof (Gnum) * g.edgesz) == 0, "edge array modified");
    if (vp_rand (3) == 0) { /* ranges that are not those of a mesh */
      SCOTCH_Mesh sb; Gnum vb = g.velmbas, nb = g.vnodbas; if (vp_rand (2)) vb += vp_rand (2) ? 1 : -1; else nb += vp_rand (2) ? 1 : -1;
      if (! (vb + g.ne == nb || nb + g.nn == vb) || vb < 0 || nb < 0) { SCOTCH_meshInit (&sb); VP_ASSERT (SCOTCH_meshBuild (&sb, vb, nb, g.ne, g.nn, g.vert, g.compact ? NULL : g.vend, NULL, NULL, NULL, g.m, g.edge) != 0, "elements from %ld and nodes from %ld are accepted", (long) vb, (long) nb); } }
    SCOTCH_meshExit (&so); free (ec); vm_free (&g);
  }
  VP_CASES ("check", 60000, 500000) {
    VM g; SCOTCH_Mesh so; Mesh a; Gnum *edge, *vert, *vend, *velo = NULL, *vnlo = NULL, n, i, k, nm; const char *why;
    vm_random (&g, vp_rand (20) ? 9 : 30, VM_VELO | VM_VNLO | VM_HOLES | VM_ISO); n = g.ne + g.nn; vm_mesh (&so, &g); a = *(Mesh *) &so;
    edge = padded (g.edge, g.edgesz, g.base); vert = padded (g.vert, g.compact ? n + 1 : n, g.base); vend = g.compact ? vert + 1 : padded (g.vend, n, g.base);
    if (g.velo) { velo = padded (g.velo, g.ne, 1); a.velotax = velo - g.velmbas; } if (g.vnlo) { vnlo = padded (g.vnlo, g.nn, 1); a.vnlotax = vnlo - g.vnodbas; }
    a.verttax = vert - g.base; a.vendtax = vend - g.base; a.edgetax = edge - g.base;
    nm = vp_rand (4);
    for (i = 0; i < nm; i ++) {
      Gnum v = vp_rand (n), e = g.m ? vp_rand (g.edgesz) : -1, d = vp_range (-2, 2);
      switch (vp_rand (14)) {
        case 0 : if (e >= 0) { edge[e] = g.base + vp_rand (n); vp_note (" edge[%ld]=%ld", (long) e, (long) edge[e]); } break;
        case 1 : if (e >= 0) { edge[e] += vp_range (-1, 1); vp_note (" edge[%ld]=%ld", (long) e, (long) edge[e]); } break;
        case 2 : if (e >= 0) { edge[e] = vp_rand (2) ? g.base - 1 : g.base + n; vp_note (" edge[%ld]=%ld", (long) e, (long) edge[e]); } break;
        case 3 : if (velo) { velo[vp_rand (g.ne)] = vp_range (-1, 2); vp_note (" element load"); } break;
        case 4 : if (vnlo) { vnlo[vp_rand (g.nn)] = vp_range (-1, 2); vp_note (" node load"); } break;
        case 5 : if (velo) { velo[vp_rand (g.ne)] += d; a.velosum += d; vp_note (" element load and sum %ld", (long) d); } break;
        case 6 : if (vnlo) { vnlo[vp_rand (g.nn)] += d; a.vnlosum += d; vp_note (" node load and sum %ld", (long) d); } break;
        case 7 : a.velosum += d; vp_note (" element sum %ld", (long) d); break;
        case 8 : a.vnlosum += d; vp_note (" node sum %ld", (long) d); break;
        case 9 : a.degrmax += d; vp_note (" degree %ld", (long) d); break;
        case 10 : a.veisnbr += d; vp_note (" isolated %ld", (long) d); break;
        case 11 : vert[v] += d; if (vert[v] < g.base - 2) vert[v] = g.base - 2; if (vert[v] > g.base + g.edgesz + 2) vert[v] = g.base + g.edgesz + 2; vp_note (" vert[%ld]=%ld", (long) v, (long) vert[v]); break;
        case 12 : vend[v] += d; if (vend[v] < g.base - 2) vend[v] = g.base - 2; if (vend[v] > g.base + g.edgesz + 2) vend[v] = g.base + g.edgesz + 2; vp_note (" vend[%ld]=%ld", (long) v, (long) vend[v]); break;
        default : switch (vp_rand (5)) { case 0 : if (a.velmnbr > 1) { a.velmnbr --; a.velmnnd --; } break; case 1 : a.velmnnd --; break; case 2 : a.vnodnnd --; break; case 3 : if (a.velmbas > a.vnodbas) { a.vnodnbr --; a.vnodnnd --; a.velmbas --; a.velmnbr ++; } else { a.velmnbr --; a.velmnnd --; a.vnodbas --; a.vnodnbr ++; } if (velo || vnlo) { a.velotax = a.vnlotax = NULL; } a.velosum = a.velmnbr; a.vnlosum = a.vnodnbr; break; default : a.vnodbas ++; }
          vp_note (" elements %ld..%ld (%ld) nodes %ld..%ld (%ld)", (long) a.velmbas, (long) a.velmnnd, (long) a.velmnbr, (long) a.vnodbas, (long) a.vnodnnd, (long) a.vnodnbr); break;
      }
    }
    why = vm_wellformed (&a);
    if (nm && n > 3) { VP_NONTRIVIAL (); vp_keep (); }
    { Mesh b = a; k = meshCheck (&a); VP_ASSERT (memcmp (&a, &b, sizeof (Mesh)) == 0, "mesh modified by the check"); }
    VP_ASSERT ((k == 0) == (why == NULL), "check %s a mesh that is %s%s", k ? "rejects" : "accepts", why ? "ill formed: " : "well formed", why ? why : "");
    free (edge - PAD); free (vert - PAD); if (! g.compact) free (vend - PAD); if (velo) free (velo - PAD); if (vnlo) free (vnlo - PAD);
    SCOTCH_meshExit (&so); vm_free (&g);
  }
  VP_CASES ("graph", 20000, 200000) {
    VM g; SCOTCH_Mesh so; SCOTCH_Graph sg; Graph *a = (Graph *) &sg; Gnum i, j, k, nc = vp_range (1, 4); unsigned char *adj;
    vm_random (&g, vp_rand (20) ? 14 : 60, VM_VELO | VM_VNLO | VM_HOLES | VM_ISO); vm_mesh (&so, &g);
    vp_note (" common=%ld", (long) nc); if (g.m > 6) { VP_NONTRIVIAL (); vp_keep (); }
    adj = vp_malloc (g.nn * g.nn + 1); memset (adj, 0, g.nn * g.nn);
    for (k = 0; k < g.ne; k ++) for (i = 0; i < g.nn; i ++) if (g.inc[k * g.nn + i]) for (j = 0; j < g.nn; j ++) if (i != j && g.inc[k * g.nn + j]) adj[i * g.nn + j] = 1;
    SCOTCH_graphInit (&sg);
    VP_ASSERT (SCOTCH_meshGraph (&so, &sg) == 0, "building the graph of the nodes fails: %s", vp_lasterr);
    adj_same (a, g.base, g.nn, adj, "graph of the nodes");
    for (i = 0; i < g.nn; i ++) VP_ASSERT ((a->velotax ? a->velotax[g.base + i] : 1) == (g.vnlo ? g.vnlo[i] : 1), "graph of the nodes: load of vertex %ld", (long) i);
    SCOTCH_graphExit (&sg); free (adj);
    adj = vp_malloc (g.ne * g.ne + 1); memset (adj, 0, g.ne * g.ne);
    for (i = 0; i < g.ne; i ++) for (j = 0; j < g.ne; j ++) if (i != j) {
      Gnum di = 0, dj = 0, c = 0, t;
      for (k = 0; k < g.nn; k ++) { di += g.inc[i * g.nn + k]; dj += g.inc[j * g.nn + k]; c += g.inc[i * g.nn + k] & g.inc[j * g.nn + k]; }
      t = nc; if (di - 1 < t) t = di - 1; if (dj - 1 < t) t = dj - 1; if (t < 1) t = 1;
      adj[i * g.ne + j] = c >= t; }
    SCOTCH_graphInit (&sg);
    VP_ASSERT (SCOTCH_meshGraphDual (&so, &sg, nc) == 0, "building the graph of the elements fails: %s", vp_lasterr);
    adj_same (a, g.base, g.ne, adj, "graph of the elements");
    for (i = 0; i < g.ne; i ++) VP_ASSERT ((a->velotax ? a->velotax[g.base + i] : 1) == (g.velo ? g.velo[i] : 1), "graph of the elements: load of vertex %ld", (long) i);
    SCOTCH_graphExit (&sg); free (adj);
    mesh_same (&g, (Mesh *) &so, g.base, 1, 0);
    SCOTCH_meshExit (&so); vm_free (&g);
  }
  VP_CASES ("base", 6000, 60000) {
    VM g; SCOTCH_Mesh so; Gnum nb = vp_range (0, 3), r;
    vm_random (&g, 14, VM_VELO | VM_VNLO | VM_HOLES | VM_ISO); vm_mesh (&so, &g); vp_note (" base=%ld", (long) nb); if (g.m > 6) { VP_NONTRIVIAL (); vp_keep (); }
    Mesh *a = (Mesh *) &so; VM h = g; Gnum n = g.ne + g.nn;
    h.vert = vp_malloc (sizeof (Gnum) * (n + 1)); memcpy (h.vert, g.vert, sizeof (Gnum) * (g.compact ? n + 1 : n)); h.vend = g.compact ? h.vert + 1 : vp_malloc (sizeof (Gnum) * (n + 1)); if (! g.compact) memcpy (h.vend, g.vend, sizeof (Gnum) * n);
    h.edge = vp_malloc (sizeof (Gnum) * g.edgesz + 1); memcpy (h.edge, g.edge, sizeof (Gnum) * g.edgesz);
    r = meshBase (a, nb); VP_ASSERT (r == g.base, "old base returned: %ld", (long) r);
    mesh_same (&h, a, nb, 1, 0);
    r = meshBase (a, g.base); VP_ASSERT (r == nb, "old base returned: %ld", (long) r);
    mesh_same (&h, a, g.base, 1, 0);
    free (h.vert); if (! h.compact) free (h.vend); free (h.edge);
    SCOTCH_meshExit (&so); vm_free (&g);
  }
  VP_CASES ("file", 12000, 120000) {
    VM g; SCOTCH_Mesh so, sl; FILE *f; int r, s; long *t, nt, k = 0; Gnum i, e, nb, lo;
    vm_random (&g, vp_rand (20) ? 12 : 60, VM_VELO | VM_VNLO | VM_HOLES | VM_ISO); vm_mesh (&so, &g);
    f = wopen (); r = SCOTCH_meshSave (&so, f); fclose (f);
    VP_ASSERT (r == 0, "saving fails"); nt = tokens (tx, &t);
    VP_ASSERT (nt >= 0, "saved file holds something else than numbers: %.200s", tx);
    lo = g.velo || g.vnlo;
    TOK (1, "version"); TOK (g.ne, "elements"); TOK (g.nn, "nodes"); TOK (g.m, "arcs"); TOK (g.velmbas, "base of elements"); TOK (g.vnodbas, "base of nodes"); TOK (lo, "flags");
    for (i = 0; i < g.ne + g.nn; i ++) {
      int el = i + g.base >= g.velmbas && i + g.base < g.velmbas + g.ne; Gnum *ld = el ? g.velo : g.vnlo, o = i + g.base - (el ? g.velmbas : g.vnodbas);
      if (lo) TOK (ld ? ld[o] : 1, "load");
      TOK (g.vend[i] - g.vert[i], "degree");
      for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) TOK (g.edge[e] - (el ? g.vnodbas : g.velmbas) + g.base, "arc end");
    }
    VP_ASSERT (k == nt, "saved file: %ld items instead of %ld", nt, k);
    if (g.m > 4) { VP_NONTRIVIAL (); vp_keep (); }
    nb = vp_rand (3) ? -1 : vp_rand (2); vp_note (" load base=%ld", (long) nb);
    SCOTCH_meshInit (&sl); f = ropen (tx, txn); r = SCOTCH_meshLoad (&sl, f, nb); fclose (f);
    VP_ASSERT (r == 0, "loading a saved mesh fails: %s", vp_lasterr);
    mesh_same (&g, (Mesh *) &sl, nb == -1 ? g.base : nb, 1, 1);
    { Mesh *a = (Mesh *) &sl; VP_ASSERT ((a->velotax != NULL) == ! ones (g.velo, g.ne) && (a->vnlotax != NULL) == ! ones (g.vnlo, g.nn), "load arrays of a loaded mesh"); }
    SCOTCH_meshExit (&sl);
    { size_t dn; char *d = damage (tx, &dn, -3, g.ne + g.nn + 4); if (dn) tryload (d, dn, vp_rand (2) ? -1 : vp_rand (2)); free (d); }
    { /* the same file with edge loads, which are dropped */
      FILE *x; char *y; size_t yn; long q = 7; x = open_memstream (&y, &yn);
      fprintf (x, "1 %ld %ld %ld %ld %ld %03d", (long) g.ne, (long) g.nn, (long) g.m, (long) g.velmbas, (long) g.vnodbas, lo ? 11 : 10);
      for (i = 0; i < g.ne + g.nn; i ++) { long d; if (lo) fprintf (x, " %ld", t[q ++]); d = t[q ++]; fprintf (x, "\n%ld", d); for (; d > 0; d --) fprintf (x, " %ld %ld", vp_rand (90), t[q ++]); }
      fclose (x); SCOTCH_meshInit (&sl); f = ropen (y, yn); r = SCOTCH_meshLoad (&sl, f, nb); fclose (f);
      VP_ASSERT (r == 0, "loading a mesh with edge loads fails: %s", vp_lasterr);
      mesh_same (&g, (Mesh *) &sl, nb == -1 ? g.base : nb, 1, 1); SCOTCH_meshExit (&sl); free (y); }
    { cookie_io_functions_t io = { NULL, wfail, NULL, NULL }; wleft = vp_rand (txn); wbad = 0; f = fopencookie (NULL, "w", io); setvbuf (f, NULL, _IONBF, 0);
      vp_note (" write refused after %ld bytes", wleft); s = SCOTCH_meshSave (&so, f); fclose (f); VP_ASSERT (! wbad || s != 0, "a refused write is not reported"); }
    free (t); free (tx); SCOTCH_meshExit (&so); vm_free (&g);
  }
  VP_CASES ("geometry", 5000, 50000) {
    VM g; SCOTCH_Mesh so, sl; SCOTCH_Geom gs, gl; Geom *gp = (Geom *) &gs; int dim = 1 + (int) vp_rand (3), r; Gnum i, ld; double *c, *lc; FILE *f, *h; char *hx;
    vm_random (&g, 12, VM_VELO | VM_VNLO | VM_HOLES); vm_mesh (&so, &g); SCOTCH_geomInit (&gs); SCOTCH_geomInit (&gl);
    c = vp_malloc (sizeof (double) * g.nn * dim); for (i = 0; i < g.nn * dim; i ++) c[i] = (double) vp_range (-4000, 4000) / 8;
    gp->dimnnbr = dim; gp->geomtab = c;
    f = wopen (); r = SCOTCH_meshGeomSaveScot (&so, &gs, NULL, f, NULL); fclose (f); hx = tx; VP_ASSERT (r == 0, "saving the geometry fails");
    { size_t hn = txn; long nl = 0; for (i = 0; i < (Gnum) hn; i ++) nl += hx[i] == '\n'; VP_ASSERT (nl == g.nn + 2, "geometry file: %ld lines", nl); 
      f = wopen (); SCOTCH_meshSave (&so, f); fclose (f); f = ropen (tx, txn); h = ropen (hx, hn); }
    vp_note (" geometry{%.300s}", hx); if (g.nn > 2) { VP_NONTRIVIAL (); vp_keep (); }
    SCOTCH_meshInit (&sl); r = SCOTCH_meshGeomLoadScot (&sl, &gl, f, h, NULL); fclose (f); fclose (h);
    VP_ASSERT (r == 0, "loading a saved mesh with its geometry fails: %s", vp_lasterr);
    SCOTCH_geomData (&gl, &ld, &lc);
    VP_ASSERT (ld == dim && lc != NULL, "loaded dimension %ld instead of %d", (long) ld, dim);
    for (i = 0; i < g.nn * dim; i ++) VP_ASSERT (lc[i] == c[i], "coordinate %ld is %g instead of %g", (long) i, lc[i], c[i]);
    SCOTCH_meshExit (&sl); SCOTCH_geomExit (&gs); SCOTCH_geomExit (&gl); free (hx); free (tx); SCOTCH_meshExit (&so); vm_free (&g);
  }
  VP_CASES ("elemental", 4000, 40000) { /* Harwell-Boeing elemental format */
    VM g; SCOTCH_Mesh sl; SCOTCH_Geom ge; Gnum i, j, k = 0, n = 0, *ptr, *ind; FILE *f; int r, w1, w2; const char *why; Mesh *a = (Mesh *) &sl;
    vm_random (&g, vp_rand (20) ? 10 : 40, 0);
    ptr = vp_malloc (sizeof (Gnum) * (g.ne + 1)); ind = vp_malloc (sizeof (Gnum) * (g.m / 2 + 1));
    for (i = 0; i < g.ne; i ++) { ptr[i] = n + 1; for (j = 0; j < g.nn; j ++) if (g.inc[i * g.nn + j]) ind[n ++] = j + 1; } ptr[g.ne] = n + 1;
    w1 = 4 + (int) vp_rand (4); w2 = 4 + (int) vp_rand (4); 
    { int c1 = 1 + (int) vp_rand (80 / w1), c2 = 1 + (int) vp_rand (80 / w2), l1 = (g.ne + 1 + c1 - 1) / c1, l2 = (n + c2 - 1) / c2;
      f = wopen (); fprintf (f, "%-72s%8s\n%14d%14d%14d%14d%14d\n%-14s%14ld%14ld%14ld%14d\n(%dI%d)          (%dI%d)          \n", "test", "KEY", l1 + l2, l1, l2, 0, 0, "PSE", (long) g.nn, (long) g.ne, (long) n, 0, c1, w1, c2, w2);
      for (i = 0; i <= g.ne; i ++) fprintf (f, "%*ld%s", w1, (long) ptr[i], (i % c1 == c1 - 1 || i == g.ne) ? "\n" : "");
      for (i = 0; i < n; i ++) fprintf (f, "%*ld%s", w2, (long) ind[i], (i % c2 == c2 - 1 || i == n - 1) ? "\n" : "");
      fclose (f); }
    if (n > 3) { VP_NONTRIVIAL (); vp_keep (); }
    SCOTCH_meshInit (&sl); SCOTCH_geomInit (&ge); f = ropen (tx, txn); r = SCOTCH_meshGeomLoadHabo (&sl, &ge, f, NULL, ""); fclose (f);
    VP_ASSERT (r == 0, "loading an elemental matrix fails: %s", vp_lasterr);
    why = vm_wellformed (a); VP_ASSERT (why == NULL, "mesh of an elemental matrix not well formed: %s", why ? why : "");
    VP_ASSERT (a->velmnbr == g.ne && a->vnodnbr == g.nn && a->baseval == 1 && a->vnodbas == 1 && a->velmbas == g.nn + 1, "sizes of the mesh of an elemental matrix");
    for (i = 0; i < g.ne; i ++) { Gnum e = a->verttax[a->velmbas + i]; VP_ASSERT (a->vendtax[a->velmbas + i] - e == ptr[i + 1] - ptr[i], "degree of element %ld", (long) i); for (j = ptr[i]; j < ptr[i + 1]; j ++) VP_ASSERT (a->edgetax[e ++] == ind[j - 1], "node of element %ld", (long) i); }
    (void) k; SCOTCH_meshExit (&sl); SCOTCH_geomExit (&ge); free (tx); free (ptr); free (ind); vm_free (&g);
  }
}
