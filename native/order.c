#include "vp.h"
#include "order.h"
#include "library_order.h"
#include "scotch.h"
#ifndef SCOTCH_H
#define SCOTCH_H
#endif
#include "vmesh.h"
/* ------------- random strategies */
static char sb[20000];
static void S (const char *f, ...) { va_list ap; size_t l = strlen (sb); va_start (ap, f); vsnprintf (sb + l, sizeof (sb) - l, f, ap); va_end (ap); }
static int ismesh, elim, allowb; /* elim: separators ordered as a chain, so that the tree is an elimination tree; allowb: see known findings */
static void kmap (void) { switch (vp_rand (4)) { case 0 : S ("r{sep=h{pass=3}}"); break; case 1 : S ("r{sep=hf{bal=0.05}}"); break; case 2 : S ("m{vert=10,low=r{sep=hf},asc=f{bal=0.05}}"); break; default : S ("r{sep=(m{vert=8,low=h,asc=f}|z)}"); } }
static void bsep (int d) {
  switch (vp_rand (d > 0 ? 7 : 4)) {
    case 0 : S ("z"); break; case 1 : S ("h{pass=%ld}", vp_range (1, 5)); break; case 2 : S ("g{pass=%ld}", vp_range (1, 4)); break; case 3 : S ("hf{bal=0.%ld}", vp_range (1, 5)); break;
    case 4 : S ("m{vert=%ld,low=h,asc=f}", vp_range (2, 20)); break; case 5 : S ("hx"); break; default : S ("hb{width=%ld,bnd=f,org=f}", vp_range (1, 3)); }
}
static void gsep (int d) {
  if (d <= 0) { static const char *t[] = { "z", "h", "h{pass=3}", "g", "g{pass=2}" }; S ("%s", t[vp_rand (5)]); return; }
  switch (vp_rand (12)) {
    case 0 : S ("z"); break;
    case 1 : S ("h{pass=%ld}f{bal=0.%ld,pass=%ld,move=%ld}", vp_range (1, 6), vp_range (1, 9), vp_range (1, 4), vp_range (1, 100)); break;
    case 2 : gsep (0); S ("f"); break;
    case 3 : S ("m{vert=%ld,rat=0.%ld,low=", vp_range (2, 30), vp_range (5, 9)); gsep (d - 1); S (",asc="); if (vp_rand (2)) S ("f"); else S ("b{width=%ld,bnd=f,org=f}", vp_range (1, 3)); S ("}"); break;
    case 4 : S ("e{type=%c,strat=", "tf"[vp_rand (2)]); bsep (1); S ("}"); break;
    case 5 : S ("("); gsep (d - 1); S ("|"); gsep (d - 1); S (")"); break;
    case 6 : gsep (0); S ("b{width=%ld,bnd=", vp_range (1, 3)); S (vp_rand (2) ? "f{bal=0.2}" : "f"); S (",org=f}"); break;
    case 7 : S ("/(vert>%ld)?", vp_range (2, 20)); gsep (d - 1); S (";"); break;
    case 8 : S ("/(levl<%ld)?", vp_range (1, 4)); gsep (d - 1); S (":"); gsep (d - 1); S (";"); break;
    case 9 : S ("m{vert=%ld,low=h{pass=3},asc=b{width=3,bnd=f{bal=0.2},org=(|h{pass=3})f{bal=0.2}}}", vp_range (4, 20)); break;
    default : S ("h{pass=%ld}", vp_range (1, 6)); if (vp_rand (2)) S ("f"); break;
  }
}
static void msep (int d) {
  if (d <= 0) { static const char *t[] = { "z", "h", "h{pass=3}" }; S ("%s", t[vp_rand (3)]); return; }
  switch (vp_rand (7)) {
    case 0 : S ("z"); break;
    case 1 : S ("h{pass=%ld}f{bal=0.%ld,pass=%ld,move=%ld}", vp_range (1, 6), vp_range (1, 9), vp_range (1, 4), vp_range (1, 100)); break;
    case 2 : S ("v{strat="); gsep (d - 1); S ("}"); break;
    case 3 : S ("m{vnod=%ld,low=", vp_range (2, 30)); msep (d - 1); S (",asc=f}"); break;
    case 4 : S ("("); msep (d - 1); S ("|"); msep (d - 1); S (")"); break;
    case 5 : S ("/(vnod>%ld)?", vp_range (2, 20)); msep (d - 1); S (";"); break;
    default : S ("h{pass=%ld}f", vp_range (1, 6));
  }
}
static void ordg (int d);
static void ordm (int d);
static void ord (int d) { if (ismesh) ordm (d); else ordg (d); }
static void osep (int d) { if (! elim) { ord (d); return; } S (vp_rand (2) ? "s" : "g"); }
static void leaf (void) {
  switch (vp_rand (4)) {
    case 0 : S ("s"); break; case 1 : S ("g{pass=%ld}", vp_range (1, 4)); break;
    case 2 : S ("d{cmin=%ld,cmax=%ld,frat=0.%ld}", vp_range (0, 12), vp_range (1, 1000), vp_range (0, 9)); break;
    default : S ("f{cmin=%ld,cmax=%ld,frat=0.%ld}", vp_range (0, 12), vp_range (1, 1000), vp_range (0, 9));
  }
}
static void ordg (int d) {
  if (d <= 0) { leaf (); return; }
  switch (vp_rand (11)) {
    case 0 : leaf (); break;
    case 1 : { int sb_ = allowb; S ("c{rat=%s,cpr=", vp_rand (2) ? "1.0" : "0.7"); allowb = 0; ordg (d - 1); allowb = sb_; S (",unc="); ordg (d - 1); S ("}"); } break;
    case 2 : if (! allowb) { leaf (); break; } S ("b{cmin=%ld,strat=", vp_range (1, 8)); S (vp_rand (2) ? "s" : "g"); S ("}"); break;
    case 3 : S ("o{strat="); ordg (d - 1); S ("}"); break;
    case 4 : S ("k{siz=%ld,strat=", vp_range (1, 10)); kmap (); S ("}"); break;
    case 5 : S ("/(vert>%ld)?", vp_range (2, 20)); ordg (d - 1); S (":"); ordg (d - 1); S (";"); break;
    default : S ("n{sep=/((levl<%ld)&(vert>%ld))?", vp_range (2, 8), vp_range (1, 6)); gsep (2); S (";,ole="); ordg (d - 1); S (",ose="); osep (d - 1); S ("}"); break;
  }
}
static void ordm (int d) {
  if (d <= 0) { leaf (); return; }
  switch (vp_rand (9)) {
    case 0 : leaf (); break;
    case 1 : { int sb_ = allowb; S ("c{rat=%s,cpr=", vp_rand (2) ? "1.0" : "0.7"); allowb = 0; ordm (d - 1); allowb = sb_; S (",unc="); ordm (d - 1); S ("}"); } break;
    case 2 : if (! allowb) { leaf (); break; } S ("b{cmin=%ld,strat=", vp_range (1, 8)); S (vp_rand (2) ? "s" : "g"); S ("}"); break;
    case 3 : S ("v{strat="); ismesh = 0; ordg (d - 1); ismesh = 1; S ("}"); break;
    case 4 : S ("/(vnod>%ld)?", vp_range (2, 20)); ordm (d - 1); S (":"); ordm (d - 1); S (";"); break;
    default : S ("n{sep=/((levl<%ld)&(vnod>%ld))?", vp_range (2, 8), vp_range (1, 6)); msep (2); S (";,ole="); ordm (d - 1); S (",ose="); osep (d - 1); S ("}"); break;
  }
}
/* ------------- oracle on the user-visible result */
static void check (Gnum base, Gnum n, const Gnum *perm, const Gnum *peri, Gnum cblk, const Gnum *rang, const Gnum *tree) {
  Gnum i; unsigned char *seen = vp_malloc (n + 1); memset (seen, 0, n + 1);
  for (i = 0; i < n; i ++) {
    VP_ASSERT (perm[i] >= base && perm[i] < base + n && ! seen[perm[i] - base], "permtab is not a permutation (vertex %ld has rank %ld)", (long) (i + base), (long) perm[i]);
    seen[perm[i] - base] = 1;
    VP_ASSERT (peri[perm[i] - base] == i + base, "peritab is not the inverse of permtab at vertex %ld", (long) (i + base));
  }
  VP_ASSERT (cblk >= 1 && cblk <= n, "%ld column blocks for %ld vertices", (long) cblk, (long) n);
  VP_ASSERT (rang[0] == base && rang[cblk] == base + n, "column blocks do not span the index range: first %ld, end %ld", (long) rang[0], (long) rang[cblk]);
  for (i = 0; i < cblk; i ++) {
    VP_ASSERT (rang[i] < rang[i + 1], "column block %ld is empty or reversed", (long) (i + base));
    VP_ASSERT (tree[i] == -1 || (tree[i] > i + base && tree[i] < cblk + base), "father of column block %ld is %ld", (long) (i + base), (long) tree[i]);
  }
  VP_ASSERT (tree[cblk - 1] == -1, "last column block has father %ld", (long) tree[cblk - 1]);
  free (seen);
}
/* elimination structure: a block may only depend on its ancestors: for graphs, every later neighbor block reached by fill must be an ancestor */
static void chkelim (const Gnum *w, Gnum base, Gnum n, const Gnum *perm, Gnum cblk, const Gnum *rang, const Gnum *tree) {
  Gnum i, j, *blk = vp_malloc (sizeof (Gnum) * (n + 1));
  for (i = 0; i < cblk; i ++) for (j = rang[i]; j < rang[i + 1]; j ++) blk[j - base] = i;
  for (i = 0; i < n; i ++) for (j = 0; j < n; j ++) if (w[i * n + j] && perm[i] < perm[j]) {
    Gnum a = blk[perm[i] - base], b = blk[perm[j] - base];
    while (a != b && a >= 0) a = (tree[a] == -1) ? -1 : tree[a] - base;
    VP_ASSERT (a == b, "vertices %ld and %ld are adjacent but the block of the second is not an ancestor of the block of the first", (long) (i + base), (long) (j + base));
  }
  free (blk);
}
/* ------------- orderCheck against the definition */
static Gnum tn, cn;
static void rtree (OrderCblk *c, Gnum v, int d) {
  c->vnodnbr = v; c->cblknbr = 0; c->cblktab = NULL; c->typeval = ORDERCBLKLEAF;
  if (d <= 0 || v < 2 || vp_rand (3) == 0) return;
  static const int ty[] = { ORDERCBLKNEDI, ORDERCBLKDICO, ORDERCBLKSEQU };
  Gnum k, i, r;
  c->typeval = ty[vp_rand (3)];
  k = (c->typeval == ORDERCBLKNEDI) ? ((v >= 3) ? vp_range (2, 3) : 2) : vp_range (1, v > 5 ? 5 : v);
  c->cblknbr = k; c->cblktab = memAlloc (k * sizeof (OrderCblk));
  tn += k; cn += k - 1;
  for (i = 0, r = v; i < k; i ++) { Gnum x = (i == k - 1) ? r : vp_range (1, r - (k - 1 - i)); rtree (&c->cblktab[i], x, d - 1); r -= x; }
}
static Gnum on, oc;
static int otree (const OrderCblk *c) {
  Gnum i, s = 0;
  if (c->vnodnbr < 1) return (1);
  on ++;
  if (c->cblktab == NULL) { oc ++; return (c->typeval != ORDERCBLKLEAF || c->cblknbr != 0); }
  if (c->typeval != ORDERCBLKNEDI && c->typeval != ORDERCBLKDICO && c->typeval != ORDERCBLKSEQU) return (1);
  if (c->cblknbr < 1) return (1);
  if (c->typeval == ORDERCBLKNEDI && c->cblknbr != 2 && c->cblknbr != 3) return (1);
  for (i = 0; i < c->cblknbr; i ++) { if (otree (&c->cblktab[i])) return (1); s += c->cblktab[i].vnodnbr; }
  return (s != c->vnodnbr);
}
static OrderCblk *pick (OrderCblk *c) { while (c->cblktab && vp_rand (3)) c = &c->cblktab[vp_rand (c->cblknbr)]; return (c); }
static Gnum *flat; static Gnum flatn;
static void leaves (const OrderCblk *c) { Gnum i; if (! c->cblktab) flat[flatn ++] = c->vnodnbr; else for (i = 0; i < c->cblknbr; i ++) leaves (&c->cblktab[i]); }
/* expected fathers, computed top-down from the definition: returns the block numbers [lo,hi) of c */
static Gnum ltree (const OrderCblk *c, Gnum lo, Gnum fa, Gnum *tr) {
  Gnum i, n = c->cblknbr, hi, *b;
  if (! c->cblktab) { tr[lo] = fa; return (lo + 1); }
  b = vp_malloc (sizeof (Gnum) * (n + 1)); b[0] = lo;
  Gnum *cnt = vp_malloc (sizeof (Gnum) * n);
  for (i = 0; i < n; i ++) { Gnum *sf = flat, sn = flatn; Gnum *tmp = vp_malloc (sizeof (Gnum) * (c->vnodnbr + 1)); flat = tmp; flatn = 0; leaves (&c->cblktab[i]); cnt[i] = flatn; flat = sf; flatn = sn; free (tmp); b[i + 1] = b[i] + cnt[i]; }
  for (i = 0; i < n; i ++) {
    Gnum f = fa;
    if (c->typeval == ORDERCBLKSEQU && i < n - 1) f = b[i + 2] - 1;
    if (c->typeval == ORDERCBLKNEDI && n == 3 && i < 2) f = b[3] - 1;
    ltree (&c->cblktab[i], b[i], f, tr);
  }
  hi = b[n]; free (b); free (cnt);
  return (hi);
}
static int kn_graph (const char *str, Gnum *velo, Gnum lnbr) {
  static Gnum v[] = { 0, 1, 3, 5, 7, 9, 11, 12 }, e[] = { 1, 0, 2, 1, 3, 2, 4, 3, 5, 4, 6, 5 }, list[] = { 6, 5, 4, 0 };
  SCOTCH_Graph g; SCOTCH_Strat s; Gnum perm[8], peri[8], c, r[9], t[8];
  SCOTCH_graphInit (&g); SCOTCH_stratInit (&s);
  if (SCOTCH_graphBuild (&g, 0, 7, v, NULL, velo, NULL, 12, e, NULL) || SCOTCH_stratGraphOrder (&s, str)) return (0);
  memset (perm, ~0, sizeof (perm));
  if (SCOTCH_graphOrderList (&g, lnbr, (lnbr == 7) ? NULL : list, &s, perm, peri, &c, r, t)) return (1);
  return (perm[0] < 0);
}
static int kn_bl (void) { return (kn_graph ("b{cmin=1,strat=d{cmin=0,cmax=100,frat=0.0}}", NULL, 7)); }
static int kn_blw (void) { static Gnum w[] = { 1, 1, 1, 9, 4, 5, 6 }; return (kn_graph ("b{cmin=1,strat=s}", w, 4)); }
static int kn_mesh (void) {
  int i; vp_s = 12345;
  for (i = 0; i < 200; i ++) {
    VM g; SCOTCH_Mesh m; SCOTCH_Strat s; SCOTCH_Ordering o; Gnum perm[64], peri[64], c, r[65], t[64];
    vm_random (&g, 20, 0); vm_mesh (&m, &g); SCOTCH_stratInit (&s);
    if (SCOTCH_stratMeshOrder (&s, "d{cmin=0,cmax=100,frat=0.0}")) return (0);
    if (SCOTCH_meshOrderInit (&m, &o, perm, peri, &c, r, t)) return (0);
    if (SCOTCH_meshOrderCompute (&m, &o, &s) != 0) return (1);
  }
  return (0);
}
static void vp_run (void) {
  VP_CASES ("orderCheck", 20000, 400000) {
    Order o; Gnum n = vp_size (30), b = vp_base (), i, j, *peri = vp_malloc (sizeof (Gnum) * n), *perm;
    VP_ASSERT (orderInit (&o, b, n, peri) == 0, "orderInit fails");
    for (i = 0; i < n; i ++) peri[i] = i + b;
    for (i = n - 1; i > 0; i --) { Gnum t; j = vp_rand (i + 1); t = peri[i]; peri[i] = peri[j]; peri[j] = t; }
    tn = cn = 1; rtree (&o.cblktre, n, 4); o.treenbr = tn; o.cblknbr = cn;
    vp_note (" base=%ld n=%ld cblknbr=%ld treenbr=%ld", (long) b, (long) n, (long) cn, (long) tn); vp_arr ("peritab", peri, n);
    if (cn > 1) { VP_NONTRIVIAL (); vp_keep (); }
    VP_ASSERT (orderCheck (&o) == 0, "valid ordering rejected: %s", vp_lasterr);
    /* derived arrays */
    perm = vp_malloc (sizeof (Gnum) * n);
    Gnum pb = vp_rand (2);
    { Gnum *sh = vp_malloc (sizeof (Gnum) * n); for (i = 0; i < n; i ++) sh[i] = peri[i] - b + pb; orderPeri (sh, pb, n, perm, b); free (sh); }
    for (i = 0; i < n; i ++) VP_ASSERT (perm[peri[i] - b] == i + b, "orderPeri is not the inverse at %ld", (long) i);
    Gnum *rang = vp_malloc (sizeof (Gnum) * (cn + 1)), *tree = vp_malloc (sizeof (Gnum) * cn), *tr = vp_malloc (sizeof (Gnum) * cn), acc = b;
    int e0 = vp_errs;
    orderRang (&o, rang); orderTree (&o, tree);
    VP_ASSERT (vp_errs == e0, "internal error reported: %s", vp_lasterr);
    flat = vp_malloc (sizeof (Gnum) * (n + 1)); flatn = 0; leaves (&o.cblktre);
    VP_ASSERT (flatn == cn, "harness");
    for (i = 0; i < cn; i ++) { VP_ASSERT (rang[i] == acc, "range of block %ld starts at %ld instead of %ld", (long) i, (long) rang[i], (long) acc); acc += flat[i]; }
    VP_ASSERT (rang[cn] == acc && acc == n + b, "end of ranges");
    ltree (&o.cblktre, 0, -1 - b, tr);
    for (i = 0; i < cn; i ++) VP_ASSERT (tree[i] == tr[i] + b, "father of block %ld is %ld instead of %ld", (long) i, (long) tree[i], (long) (tr[i] + b));
    check (b, n, perm, peri, cn, rang, tree);
    /* one to three mutations */
    int k = (int) vp_range (1, 3);
    while (k -- > 0) {
      OrderCblk *c = pick (&o.cblktre);
      Gnum d = vp_rand (2) ? 1 : -1;
      int m = (int) vp_rand (10);
      vp_note (" mut=%d", m);
      switch (m) {
        case 0 : peri[vp_rand (n)] = b + vp_range (-1, n); break;
        case 1 : peri[vp_rand (n)] = vp_rand (2) ? b - 1 : b + n; break;
        case 2 : { Gnum x = vp_rand (n), y = vp_rand (n), t = peri[x]; peri[x] = peri[y]; peri[y] = t; } break;
        case 3 : c->vnodnbr += d; break;
        case 4 : { static const int t[] = { 0, 1, 2, 4, 8, 3, 16 }; c->typeval = t[vp_rand (7)]; } break;
        case 5 : if (c->cblktab == NULL) c->cblknbr = vp_rand (2); else if (c->cblknbr > 0) c->cblknbr --; break;
        case 6 : o.treenbr += d; break;
        case 7 : o.cblknbr += d; break;
        case 8 : if (c->cblktab) { c->cblktab[0].vnodnbr += d; c->cblktab[c->cblknbr > 0 ? c->cblknbr - 1 : 0].vnodnbr -= d; } break;
        default : peri[vp_rand (n)] = peri[vp_rand (n)]; break;
      }
    }
    int bad = 0; on = oc = 0;
    if (o.vnodnbr != o.cblktre.vnodnbr) bad = 1;
    { unsigned char *s = vp_malloc (n + 1); memset (s, 0, n + 1); for (i = 0; i < n && ! bad; i ++) { if (peri[i] < b || peri[i] >= b + n || s[peri[i] - b]) bad = 1; else s[peri[i] - b] = 1; } free (s); }
    if (! bad) bad = otree (&o.cblktre);
    if (! bad && (on != o.treenbr || oc != o.cblknbr)) bad = 1;
    VP_ASSERT ((orderCheck (&o) != 0) == bad, "orderCheck says %s, the ordering is %s", bad ? "valid" : "invalid", bad ? "invalid" : "valid");
    free (peri); free (perm); free (rang); free (tree); free (tr); free (flat);
  }
  VP_CASES ("graph", 40000, 1000000) {
    VG g; Gnum *w, i, k, c = -7; SCOTCH_Graph sg; SCOTCH_Strat st; SCOTCH_Ordering od;
    w = vg_random (&g, vp_rand (12) ? 25 : 90, VG_VELO | VG_EDLO | VG_HOLES);
    Gnum n = g.n;
    SCOTCH_graphInit (&sg); VP_ASSERT (SCOTCH_graphBuild (&sg, g.base, n, g.vert, g.compact ? NULL : g.vend, g.velo, NULL, g.m, g.edge, g.edlo) == 0, "build");
    SCOTCH_stratInit (&st); sb[0] = 0; ismesh = 0; elim = (int) vp_rand (2); allowb = (g.velo == NULL);
    switch (vp_rand (8)) {
      case 0 : { static const long fl[] = { 1, 2, 4, 8, 0x4000, 0x8000, 0x10000, 0x1000, 0x2000 }; long f = 0; for (i = vp_rand (4); i > 0; i --) f |= fl[vp_rand (9)];
                 long lv = vp_range (0, 5); double bl = vp_range (1, 40) / 100.0;
                 S ("build:%ld,%ld,%g", f, lv, bl); VP_ASSERT (SCOTCH_stratGraphOrderBuild (&st, f, lv, bl) == 0, "strategy build"); } break;
      case 1 : S ("default"); break;
      default : ordg ((int) vp_rand (4)); VP_ASSERT (SCOTCH_stratGraphOrder (&st, sb) == 0, "strategy refused: %s", sb);
    }
    vp_note (" strat=%s", sb);
    Gnum *perm = vp_malloc (sizeof (Gnum) * (n + 1)), *peri = vp_malloc (sizeof (Gnum) * (n + 1)), *rang = vp_malloc (sizeof (Gnum) * (n + 2)), *tree = vp_malloc (sizeof (Gnum) * (n + 1)), *list = vp_malloc (sizeof (Gnum) * (n + 1));
    memset (perm, 0xEE, sizeof (Gnum) * n); memset (peri, 0xEE, sizeof (Gnum) * n); memset (rang, 0xEE, sizeof (Gnum) * (n + 1)); memset (tree, 0xEE, sizeof (Gnum) * n);
    if (g.m > 0 && n > 3) { VP_NONTRIVIAL (); vp_keep (); }
    SCOTCH_randomReset ();
    int mode = (int) vp_rand (6), r; k = n;
    if (mode == 0) { /* list */
      Gnum dens = vp_rand (5); unsigned char *in = vp_malloc (n + 1);
      for (k = i = 0; i < n; i ++) { in[i] = vp_rand (4) < dens; if (in[i]) list[k ++] = i + g.base; }
      for (i = k - 1; i > 0; i --) { Gnum t, j = vp_rand (i + 1); t = list[i]; list[i] = list[j]; list[j] = t; }
      vp_arr ("list", list, k);
      r = SCOTCH_graphOrderList (&sg, k, list, &st, perm, peri, &c, rang, tree);
      VP_ASSERT (r == 0, "ordering fails: %s", vp_lasterr);
      check (g.base, n, perm, peri, c, rang, tree);
      if (k > 0) for (i = 0; i < n; i ++) VP_ASSERT ((perm[i] - g.base < k) == in[i], "vertex %ld of the list must come before the others", (long) (i + g.base));
      free (in);
    }
    else if (mode == 1) { /* some outputs missing: the others must agree with the ordering structure */
      Gnum *a = vp_rand (2) ? perm : NULL, *b = vp_rand (2) ? peri : NULL, *d = vp_rand (2) ? rang : NULL, *e = vp_rand (2) ? tree : NULL, *f = vp_rand (2) ? &c : NULL;
      VP_ASSERT (SCOTCH_graphOrderInit (&sg, &od, a, b, f, d, e) == 0, "init");
      VP_ASSERT (SCOTCH_graphOrderCompute (&sg, &od, &st) == 0, "ordering fails: %s", vp_lasterr);
      VP_ASSERT (SCOTCH_graphOrderCheck (&sg, &od) == 0, "ordering not consistent: %s", vp_lasterr);
      LibOrder *lo = (LibOrder *) &od;
      if (! a) orderPeri (lo->o.peritab, g.base, n, perm, g.base);
      if (! b) memcpy (peri, lo->o.peritab, sizeof (Gnum) * n);
      if (! d) orderRang (&lo->o, rang); if (! e) orderTree (&lo->o, tree); if (! f) c = lo->o.cblknbr;
      check (g.base, n, perm, peri, c, rang, tree);
      SCOTCH_graphOrderExit (&sg, &od);
    }
    else {
      r = SCOTCH_graphOrder (&sg, &st, perm, peri, &c, rang, tree);
      VP_ASSERT (r == 0, "ordering fails: %s", vp_lasterr);
      check (g.base, n, perm, peri, c, rang, tree);
      if (elim && strcmp (sb, "default") && strncmp (sb, "build", 5)) chkelim (w, g.base, n, perm, c, rang, tree);
    }
    SCOTCH_stratExit (&st); SCOTCH_graphExit (&sg);
    free (perm); free (peri); free (rang); free (tree); free (list); free (w); vg_free (&g);
  }
  vp_known ("blocking-recursion", kn_bl);
  vp_known ("blocking-weights", kn_blw);
  vp_known ("mesh-ordering", kn_mesh);
}
