#include "vp.h"
#include "scotch.h"
/* ------------- random strategies */
static char sb[20000];
static void S (const char *f, ...) { va_list ap; size_t l = strlen (sb); va_start (ap, f); vsnprintf (sb + l, sizeof (sb) - l, f, ap); va_end (ap); }
static void bip (int d) { /* bipartitioning; the first method of a sequence must build a bipartition */
  if (d <= 0) { static const char *t[] = { "h", "h{pass=3}", "g", "g{pass=2}", "hf", "z", "hx" }; S ("%s", t[vp_rand (7)]); return; }
  switch (vp_rand (10)) {
    case 0 : S ("h{pass=%ld}f{bal=0.%02ld,pass=%ld,move=%ld,type=%c}", vp_range (1, 6), vp_range (1, 30), vp_range (1, 4), vp_range (1, 100), "ab"[vp_rand (2)]); break;
    case 1 : S ("m{vert=%ld,rat=0.%ld,low=", vp_range (2, 30), vp_range (5, 9)); bip (d - 1); S (",asc="); S (vp_rand (2) ? "f" : "b{width=3,bnd=f{bal=0.05},org=f}"); S ("}"); break;
    case 2 : S ("("); bip (d - 1); S ("|"); bip (d - 1); S (")"); break;
    case 3 : bip (0); S ("b{width=%ld,bnd=", vp_range (1, 3)); if (vp_rand (2)) S ("d{pass=%ld}f", vp_range (1, 30)); else S ("f{bal=0.1}"); S (",org=f}"); break;
    case 4 : bip (0); S ("b{width=%ld,bnd=d{pass=%ld,type=%c}", vp_range (1, 3), vp_range (1, 40), "bk"[vp_rand (2)]); if (vp_rand (2)) S ("f"); S (",org=f}"); break;
    case 5 : S ("/(vert>%ld)?", vp_range (2, 20)); bip (d - 1); S (";"); break;
    case 6 : S ("/(load0=load)?"); bip (d - 1); S (":z;"); break;
    case 7 : S ("g{pass=%ld}x", vp_range (1, 4)); break;
    default : S ("h{pass=%ld}", vp_range (1, 5)); if (vp_rand (2)) S ("f{bal=0.05}"); if (vp_rand (3) == 0) S ("x"); break;
  }
}
static void rb (int d) { S ("r{job=%c,map=%c,poli=%c,bal=0.%02ld,sep=", "tu"[vp_rand (2)], "tu"[vp_rand (2)], "rlsLS"[vp_rand (5)], vp_range (1, 30)); bip (d); S ("}"); }
static void ref (void) { switch (vp_rand (5)) { case 0 : S ("f{bal=0.%02ld,move=%ld,pass=%ld}", vp_range (1, 30), vp_range (1, 200), vp_range (1, 4)); break;
  case 1 : S ("x{bal=0.%02ld}", vp_range (1, 20)); break; case 2 : S ("b{width=%ld,bnd=d{pass=%ld,dif=%s,rem=%s}f,org=f}", vp_range (1, 3), vp_range (1, 40), vp_rand (2) ? "1" : "0.7", vp_rand (2) ? "0" : "0.3"); break;
  case 3 : S ("b{width=%ld,bnd=f{bal=0.1},org=f}", vp_range (1, 3)); break; default : S ("f"); } }
static int hasold; /* complete old mapping given: the copy method may be used */
static void kmp (int d) {
  if (d <= 0) { rb (0); return; }
  switch (vp_rand (8)) {
    case 0 : case 1 : rb (2); break;
    case 2 : rb (1); ref (); break;
    case 3 : S ("m{type=%c,vert=%ld,rat=0.%ld,low=", "hscd"[vp_rand (4)], vp_range (2, 60), vp_range (5, 9)); kmp (d - 1); S (",asc="); ref (); S ("}"); break;
    case 4 : S ("("); kmp (d - 1); S ("|"); kmp (d - 1); S (")"); break;
    case 5 : if (hasold) { S ("c"); if (vp_rand (2)) ref (); } else rb (1); break;
    case 6 : S ("/(vert>%ld)?", vp_range (1, 20)); kmp (d - 1); S (":"); kmp (d - 1); S (";"); break;
    default : rb (1); ref (); ref (); break;
  }
}
static void vsp (void) { switch (vp_rand (4)) { case 0 : S ("h"); break; case 1 : S ("h{pass=%ld}f", vp_range (1, 5)); break; case 2 : S ("m{vert=%ld,low=h{pass=3},asc=f}", vp_range (3, 20)); break; default : S ("g{pass=2}f{bal=0.1}"); } }
static void wst (int d) {
  switch (vp_rand (d > 0 ? 6 : 2)) {
    case 0 : S ("r{sep="); vsp (); S ("}"); break;
    case 1 : S ("z"); break;
    case 2 : S ("e{strat="); kmp (1); S ("}"); break;
    case 3 : S ("m{vert=%ld,rat=0.%ld,low=", vp_range (4, 40), vp_range (5, 9)); wst (d - 1); S (",asc=f{bal=0.%02ld}}", vp_range (1, 30)); break;
    case 4 : wst (0); S ("f{bal=0.%02ld,pass=%ld,move=%ld}", vp_range (1, 30), vp_range (1, 4), vp_range (1, 60)); break;
    default : S ("r{sep="); vsp (); S ("}f"); break;
  }
}
/* ------------- random targets */
static SCOTCH_Num rarch (SCOTCH_Arch *a, Gnum nmax) {
  SCOTCH_Num s, i, x, y, z; SCOTCH_archInit (a);
  switch (vp_rand (9)) {
    case 0 : { SCOTCH_Num w[64]; s = vp_range (1, nmax < 12 ? nmax + 2 : 12); for (i = 0; i < s; i ++) w[i] = vp_range (1, 5); SCOTCH_archCmpltw (a, s, w); vp_note (" arch=cmpltw %ld", (long) s); return (s); }
    case 1 : x = vp_range (1, 4); y = vp_range (1, 4); SCOTCH_archMesh2 (a, x, y); vp_note (" arch=mesh2D %ld %ld", (long) x, (long) y); return (x * y);
    case 2 : x = vp_range (1, 3); y = vp_range (1, 3); z = vp_range (1, 3); SCOTCH_archMesh3 (a, x, y, z); vp_note (" arch=mesh3D %ld %ld %ld", (long) x, (long) y, (long) z); return (x * y * z);
    case 3 : x = vp_range (1, 5); y = vp_range (1, 4); SCOTCH_archTorus2 (a, x, y); vp_note (" arch=torus2D %ld %ld", (long) x, (long) y); return (x * y);
    case 4 : x = vp_range (0, 4); SCOTCH_archHcub (a, x); vp_note (" arch=hcub %ld", (long) x); return (1 << x);
    case 5 : { SCOTCH_Num st[3], lt[3]; x = vp_range (1, 3); for (i = 0, s = 1; i < x; i ++) { st[i] = vp_range (2, 4); lt[i] = vp_range (1, 9); s *= st[i]; } SCOTCH_archTleaf (a, x, st, lt); vp_note (" arch=tleaf %ld levels", (long) x); return (s); }
    default : s = vp_range (1, vp_rand (4) ? 8 : nmax + 3); SCOTCH_archCmplt (a, s); vp_note (" arch=cmplt %ld", (long) s); return (s);
  }
}
static unsigned long hsh (const void *p, size_t n) { const unsigned char *b = p; unsigned long h = 14695981039346656037UL; while (n --) h = (h ^ *b ++) * 1099511628211UL; return (h); }
static unsigned long ghash (const VG *g) {
  unsigned long h = hsh (g->vert, sizeof (Gnum) * g->n) ^ 3 * hsh (g->vend, sizeof (Gnum) * g->n) ^ 5 * hsh (g->edge, sizeof (Gnum) * g->m);
  if (g->velo) h ^= 7 * hsh (g->velo, sizeof (Gnum) * g->n); if (g->edlo) h ^= 11 * hsh (g->edlo, sizeof (Gnum) * g->m); return (h);
}
static const int flg[] = { SCOTCH_STRATDEFAULT, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATREMAP, SCOTCH_STRATRECURSIVE | SCOTCH_STRATREMAP, SCOTCH_STRATBALANCE | SCOTCH_STRATQUALITY };
static void vp_run (void) {
  int thr = (getenv ("SCOTCH_PTHREAD_NUMBER") != NULL) ? atoi (getenv ("SCOTCH_PTHREAD_NUMBER")) : 1;
  VP_CASES ("map", thr > 1 ? 2500 : 16000, thr > 1 ? 20000 : 120000) {
    VG g; Graph a; Gnum *w, i, n, b; SCOTCH_Graph so; SCOTCH_Arch arc; SCOTCH_Strat st; SCOTCH_Num s, *p, *q, *fx, *old, *vm = NULL; int mode, r, sm; double emra; unsigned long h;
    w = vg_random (&g, vp_rand (8) ? 30 : 200, VG_VELO | VG_EDLO | VG_HOLES | VG_VLBL); n = g.n; b = g.base; h = ghash (&g);
    vg_graph (&a, &g); memset (&so, 0, sizeof (so)); memcpy (&so, &a, sizeof (Graph));
    int oldall = (int) vp_rand (2); mode = (int) vp_rand (8); hasold = (mode >= 4) && oldall; /* 0 part 1 partFixed 2 map 3 mapFixed 4 remap 5 remapFixed 6 repart 7 repartFixed */
    vp_note (" mode=%d", mode);
    if (mode < 2 || mode > 5) { s = vp_range (1, vp_rand (5) ? 9 : n + 3); SCOTCH_archInit (&arc); vp_note (" parts=%ld", (long) s); } else s = rarch (&arc, n);
    SCOTCH_stratInit (&st); sm = (int) vp_rand (4); sb[0] = '\0';
    if (sm == 0) vp_note (" strat=default");
    else if (sm == 1) { int f = (int) vp_rand (9); double bal = vp_range (1, 40) / 100.0; vp_note (" strat=build(%d,%g)", flg[f], bal); r = SCOTCH_stratGraphMapBuild (&st, flg[f], s, bal); VP_ASSERT (r == 0, "building the strategy fails"); }
    else { kmp (2); vp_note (" strat=%s", sb); r = SCOTCH_stratGraphMap (&st, sb); VP_ASSERT (r == 0, "strategy refused"); }
    p = vp_malloc (sizeof (Gnum) * (n + 2)); q = vp_malloc (sizeof (Gnum) * (n + 2)); fx = vp_malloc (sizeof (Gnum) * (n + 2)); old = vp_malloc (sizeof (Gnum) * (n + 2));
    for (i = 0; i < n; i ++) { p[i + 1] = -99; fx[i] = -1; old[i] = (oldall || vp_rand (3)) ? vp_rand (s) : -1; }
    p[0] = p[n + 1] = -98;
    if (mode & 1) { int k = (int) vp_rand (4); for (i = 0; i < n; i ++) if (k == 0 || (k == 1 && vp_rand (5) == 0) || (k == 2 && vp_rand (2))) fx[i] = vp_rand (s); for (i = 0; i < n; i ++) p[i + 1] = fx[i]; vp_arr ("fixed", fx, n); }
    emra = vp_rand (3) / 2.0;
    if (mode >= 4) { vp_arr ("old", old, n); vp_note (" emra=%g", emra); if (vp_rand (2)) { vm = vp_malloc (sizeof (Gnum) * (n + 1)); for (i = 0; i < n; i ++) vm[i] = vp_rand (4); vp_arr ("vmlo", vm, n); } }
    memcpy (q, p, sizeof (Gnum) * (n + 2));
    for (sm = 0; sm < 2; sm ++) { /* second run: same generator state */
      SCOTCH_Num *t = sm ? q : p, *o2 = vp_malloc (sizeof (Gnum) * (n + 1)); memcpy (o2, old, sizeof (Gnum) * n);
      SCOTCH_randomReset ();
      switch (mode) {
        case 0 : r = SCOTCH_graphPart (&so, s, &st, t + 1); break; case 1 : r = SCOTCH_graphPartFixed (&so, s, &st, t + 1); break;
        case 2 : r = SCOTCH_graphMap (&so, &arc, &st, t + 1); break; case 3 : r = SCOTCH_graphMapFixed (&so, &arc, &st, t + 1); break;
        case 4 : r = SCOTCH_graphRemap (&so, &arc, o2, emra, vm, &st, t + 1); break; case 5 : r = SCOTCH_graphRemapFixed (&so, &arc, o2, emra, vm, &st, t + 1); break;
        case 6 : r = SCOTCH_graphRepart (&so, s, o2, emra, vm, &st, t + 1); break; default : r = SCOTCH_graphRepartFixed (&so, s, o2, emra, vm, &st, t + 1); break;
      }
      VP_ASSERT (r == 0, "computation fails: %s", vp_lasterr);
      VP_ASSERT (memcmp (o2, old, sizeof (Gnum) * n) == 0, "old mapping modified"); free (o2);
      if (vp_rand (4) || thr > 1) break;
    }
    if (g.m > 4 && s > 1) { VP_NONTRIVIAL (); vp_keep (); }
    VP_ASSERT (p[0] == -98 && p[n + 1] == -98, "written outside of the part array");
    for (i = 0; i < n; i ++) {
      VP_ASSERT (p[i + 1] >= 0 && p[i + 1] < s, "vertex %ld mapped onto %ld, target has %ld processors", (long) (i + b), (long) p[i + 1], (long) s);
      VP_ASSERT (fx[i] == -1 || p[i + 1] == fx[i], "fixed vertex %ld moved from %ld to %ld", (long) (i + b), (long) fx[i], (long) p[i + 1]);
    }
    if (sm == 2) VP_ASSERT (memcmp (p, q, sizeof (Gnum) * (n + 2)) == 0, "mapping differs with the same generator state");
    VP_ASSERT (ghash (&g) == h && SCOTCH_graphCheck (&so) == 0, "graph modified");
    if (mode >= 2 && mode <= 5) SCOTCH_archExit (&arc);
    SCOTCH_stratExit (&st); free (p); free (q); free (fx); free (old); free (vm); vg_free (&g); free (w);
  }
  VP_CASES ("ovl", thr > 1 ? 1500 : 10000, thr > 1 ? 12000 : 80000) {
    VG g; Graph a; Gnum *w, i, e, n; SCOTCH_Graph so; SCOTCH_Strat st; SCOTCH_Num s, *p, *q; int r, sm; unsigned long h;
    w = vg_random (&g, vp_rand (8) ? 30 : 200, VG_VELO | VG_EDLO | VG_HOLES); n = g.n; h = ghash (&g);
    vg_graph (&a, &g); memset (&so, 0, sizeof (so)); memcpy (&so, &a, sizeof (Graph));
    s = vp_range (1, vp_rand (5) ? 9 : n + 3); vp_note (" parts=%ld", (long) s);
    SCOTCH_stratInit (&st); sm = (int) vp_rand (4); sb[0] = '\0';
    if (sm == 0) vp_note (" strat=default");
    else if (sm == 1) { int f = (int) vp_rand (9); double bal = vp_range (1, 40) / 100.0; vp_note (" strat=build(%d,%g)", flg[f], bal); r = SCOTCH_stratGraphPartOvlBuild (&st, flg[f], s, bal); VP_ASSERT (r == 0, "building the strategy fails"); }
    else { hasold = 0; wst (2); vp_note (" strat=%s", sb); r = SCOTCH_stratGraphPartOvl (&st, sb); VP_ASSERT (r == 0, "strategy refused"); }
    p = vp_malloc (sizeof (Gnum) * (n + 2)); q = vp_malloc (sizeof (Gnum) * (n + 2));
    for (i = 0; i < n; i ++) p[i + 1] = -99; p[0] = p[n + 1] = -98; memcpy (q, p, sizeof (Gnum) * (n + 2));
    SCOTCH_randomReset (); r = SCOTCH_graphPartOvl (&so, s, &st, p + 1); VP_ASSERT (r == 0, "computation fails: %s", vp_lasterr);
    if (g.m > 4 && s > 1) { VP_NONTRIVIAL (); vp_keep (); }
    if (vp_rand (4) == 0 && thr == 1) { SCOTCH_randomReset (); SCOTCH_graphPartOvl (&so, s, &st, q + 1); VP_ASSERT (memcmp (p, q, sizeof (Gnum) * (n + 2)) == 0, "partition differs with the same generator state"); }
    VP_ASSERT (p[0] == -98 && p[n + 1] == -98, "written outside of the part array");
    for (i = 0; i < n; i ++) {
      VP_ASSERT (p[i + 1] >= -1 && p[i + 1] < s, "vertex %ld in part %ld of %ld", (long) (i + g.base), (long) p[i + 1], (long) s);
      if (p[i + 1] >= 0) for (e = g.vert[i] - g.base; e < g.vend[i] - g.base; e ++) { SCOTCH_Num o = p[g.edge[e] - g.base + 1];
        VP_ASSERT (o == -1 || o == p[i + 1], "neighbours %ld and %ld lie in parts %ld and %ld with no separator between them", (long) (i + g.base), (long) g.edge[e], (long) p[i + 1], (long) o); }
    }
    VP_ASSERT (ghash (&g) == h && SCOTCH_graphCheck (&so) == 0, "graph modified");
    SCOTCH_stratExit (&st); free (p); free (q); vg_free (&g); free (w);
  }
}
