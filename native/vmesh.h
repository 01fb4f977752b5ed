/* random bipartite meshes: elements and nodes in two contiguous ranges */
#ifndef VMESH_H
#define VMESH_H
typedef struct {
  Gnum base, ne, nn, velmbas, vnodbas, m;
  Gnum *vert, *vend, *edge, *velo, *vnlo, *vlbl; /* C arrays over all vertices, values based */
  Gnum edgesz; int compact;
  unsigned char *inc;               /* inc[e*nn+d] */
} VM;
enum { VM_VELO = 1, VM_VNLO = 2, VM_HOLES = 4, VM_ISO = 8, VM_VLBL = 16 };
static void vm_random (VM *g, Gnum nmax, int allow) {
  Gnum i, j, k, n, *ord; int fam = (int) vp_rand (4), f = 0, elmfirst = (int) vp_rand (2);
  if ((allow & VM_VELO) && vp_rand (2)) f |= VM_VELO;
  if ((allow & VM_VNLO) && vp_rand (2)) f |= VM_VNLO;
  if ((allow & VM_HOLES) && vp_rand (3) == 0) f |= VM_HOLES;
  if ((allow & VM_ISO) && vp_rand (3) == 0) f |= VM_ISO;
  if ((allow & VM_VLBL) && vp_rand (3) == 0) f |= VM_VLBL;
  memset (g, 0, sizeof (*g));
  g->base = vp_base (); g->nn = vp_size (nmax); g->ne = vp_size (nmax); n = g->nn + g->ne;
  g->velmbas = elmfirst ? g->base : g->base + g->nn; g->vnodbas = elmfirst ? g->base + g->ne : g->base;
  g->inc = vp_malloc (g->ne * g->nn + 1); memset (g->inc, 0, g->ne * g->nn);
  for (i = 0; i < g->ne; i ++) switch (fam) {
    case 0 : for (k = vp_range (1, 4); k > 0; k --) g->inc[i * g->nn + vp_rand (g->nn)] = 1; break;
    case 1 : g->inc[i * g->nn + i % g->nn] = 1; g->inc[i * g->nn + (i + 1) % g->nn] = 1; break;
    case 2 : { Gnum c = 1; while (c * c < g->nn) c ++; for (k = 0; k < 4; k ++) { j = i + (k & 1) + (k >> 1) * c; if (j < g->nn) g->inc[i * g->nn + j] = 1; } } break;
    default : for (j = 0; j < g->nn; j ++) if (vp_rand (g->nn > 10 ? g->nn / 3 : 3) == 0) g->inc[i * g->nn + j] = 1;
  }
  if (! (f & VM_ISO)) { /* no isolated vertices */
    for (i = 0; i < g->ne; i ++) { for (j = 0; j < g->nn && ! g->inc[i * g->nn + j]; j ++) ; if (j == g->nn) g->inc[i * g->nn + vp_rand (g->nn)] = 1; }
    for (j = 0; j < g->nn; j ++) { for (i = 0; i < g->ne && ! g->inc[i * g->nn + j]; i ++) ; if (i == g->ne) g->inc[vp_rand (g->ne) * g->nn + j] = 1; }
  }
  for (i = 0; i < g->ne * g->nn; i ++) g->m += 2 * g->inc[i];
  g->compact = ! (f & VM_HOLES);
  g->vert = vp_malloc (sizeof (Gnum) * (n + 1)); g->vend = g->compact ? g->vert + 1 : vp_malloc (sizeof (Gnum) * (n + 1));
  g->edgesz = g->m + (g->compact ? 0 : 3 * n + 2);
  g->edge = vp_malloc (sizeof (Gnum) * (g->edgesz + 1)); for (i = 0; i < g->edgesz; i ++) g->edge[i] = g->base;
  ord = vp_malloc (sizeof (Gnum) * (n + 1)); for (i = 0; i < n; i ++) ord[i] = i;
  if (! g->compact) for (i = n - 1; i > 0; i --) { Gnum t; j = vp_rand (i + 1); t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  k = g->compact ? 0 : vp_rand (3);
  for (i = 0; i < n; i ++) {
    Gnum v = ord[i], b = k, isel = (v + g->base >= g->velmbas && v + g->base < g->velmbas + g->ne), o = v + g->base - (isel ? g->velmbas : g->vnodbas);
    g->vert[v] = g->base + k;
    for (j = 0; j < (isel ? g->nn : g->ne); j ++) if (isel ? g->inc[o * g->nn + j] : g->inc[j * g->nn + o]) g->edge[k ++] = j + (isel ? g->vnodbas : g->velmbas);
    if (vp_rand (2)) for (j = k - b - 1; j > 0; j --) { Gnum x = b + vp_rand (j + 1), t = g->edge[b + j]; g->edge[b + j] = g->edge[x]; g->edge[x] = t; }
    if (g->compact) g->vert[v + 1] = g->base + k; else { g->vend[v] = g->base + k; k += vp_rand (3); }
  }
  free (ord);
  if (f & VM_VELO) { g->velo = vp_malloc (sizeof (Gnum) * (g->ne + 1)); for (i = 0; i < g->ne; i ++) g->velo[i] = vp_range (1, 5); }
  if (f & VM_VNLO) { g->vnlo = vp_malloc (sizeof (Gnum) * (g->nn + 1)); for (i = 0; i < g->nn; i ++) g->vnlo[i] = vp_range (1, 5); }
  if (f & VM_VLBL) { g->vlbl = vp_malloc (sizeof (Gnum) * (n + 1)); for (i = 0; i < n; i ++) g->vlbl[i] = g->base + 3 * i + vp_rand (3); }
  vp_note (" base=%ld ne=%ld nn=%ld velmbas=%ld vnodbas=%ld", (long) g->base, (long) g->ne, (long) g->nn, (long) g->velmbas, (long) g->vnodbas);
  vp_arr ("verttab", g->vert, g->compact ? n + 1 : n); if (! g->compact) vp_arr ("vendtab", g->vend, n);
  vp_arr ("edgetab", g->edge, g->edgesz);
  if (g->velo) vp_arr ("velotab", g->velo, g->ne); if (g->vnlo) vp_arr ("vnlotab", g->vnlo, g->nn);
}
static void vm_free (VM *g) { free (g->vert); if (! g->compact) free (g->vend); free (g->edge); free (g->velo); free (g->vnlo); free (g->vlbl); free (g->inc); }
#ifdef SCOTCH_NUMMAX
static void vm_mesh (SCOTCH_Mesh *m, const VM *g) {
  SCOTCH_meshInit (m);
  VP_ASSERT (SCOTCH_meshBuild (m, g->velmbas, g->vnodbas, g->ne, g->nn, g->vert, g->compact ? NULL : g->vend, g->velo, g->vnlo, g->vlbl, g->m, g->edge) == 0, "meshBuild fails: %s", vp_lasterr);
}
#endif
#endif
