From ff91a0ef55ba4fb8b4777b753869d1fa1a5f74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:06 +0000
Subject: [PATCH 01/43] fix: SCOTCH_graphColor: do not give the same color to
 adjacent vertices

Neighbors colored during the current round were skipped like those colored in
previous rounds, so a vertex could get the color of one of its neighbors.
---
 src/libscotch/library_graph_color.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_color.c b/src/libscotch/library_graph_color.c
index 9065781..3522327 100644
--- a/src/libscotch/library_graph_color.c
+++ b/src/libscotch/library_graph_color.c
@@ -142,7 +142,7 @@ const SCOTCH_Num                    flagval)      /* Flag value (not used)
 
         vertend = edgetax[edgenum];
 
-        if (colotax[vertend] >= 0)
+        if ((colotax[vertend] >= 0) && (colotax[vertend] != colonum)) /* Skip vertices colored in previous rounds only */
           continue;
 
         randend = randtax[vertend];
-- 
2.43.0


From fd6430afc338ba495018f024378b777435af2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:06 +0000
Subject: [PATCH 02/43] fix: archCmpltwDomLoad: set the domain weight instead
 of accumulating into uninitialized memory

---
 src/libscotch/arch_cmpltw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..aae5b75 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -493,7 +493,7 @@ FILE * const                    stream)
        vertnum < vertnnd; vertnum ++)
     velosum += archptr->velotab[vertnum].veloval;
 
-  domnptr->veloval += velosum;
+  domnptr->veloval = velosum;
 
   return (0);
 }
-- 
2.43.0


From 8a7fac38d4d7919dace2edc6d5f691e3d18faa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:06 +0000
Subject: [PATCH 03/43] fix: archTleafDomIncl: test domain inclusion rather
 than intersection

---
 src/libscotch/arch_tleaf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 39a8f3d..5560320 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -655,8 +655,8 @@ const ArchTleafDom * const  dom1ptr)
       return (0);
   }
 
-  return (((idx0min >= (idx1min + idx1nbr)) ||
-           (idx1min >= (idx0min + idx0nbr))) ? 0 : 1);
+  return (((idx1min >= idx0min) &&
+           ((idx1min + idx1nbr) <= (idx0min + idx0nbr))) ? 1 : 0);
 }
 
 /***********************************/
-- 
2.43.0


From bd7faed6f436731d4b69425cf3f7611e669724ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:01 +0000
Subject: [PATCH 04/43] fix: archTleafDomDist: make the distance symmetric for
 nested domains that start at the same index

---
 src/libscotch/arch_tleaf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 5560320..a10d48f 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -481,7 +481,7 @@ const ArchTleafDom * const  dom1ptr)
     if ((idx0min + idx0nbr) >= (idx1min + idx1nbr)) /* If dom1 included in dom0     */
       return (distval / 2);
   }
-  else {
+  if (idx0min >= idx1min) {
     if ((idx0min + idx0nbr) <= (idx1min + idx1nbr)) /* If dom0 included in dom1 */
       return (distval / 2);
   }
-- 
2.43.0


From 8eef826fd2a5173e691072b9cb96a3d1b69cc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:22 +0000
Subject: [PATCH 05/43] fix: archMeshXDomDist: meshes do not wrap around

The distance function of the xD mesh was that of the xD torus.
---
 src/libscotch/arch_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..36314ca 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -913,7 +913,7 @@ const ArchMeshXDom * const  dom1ptr)
   for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
     disttmp = abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
                    dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
-    distval += (disttmp > archptr->c[dimnnum]) ? (2 * archptr->c[dimnnum] - disttmp) : disttmp;
+    distval += disttmp;
   }
 
   return (distval >> 1);
-- 
2.43.0


From ab771158ba6fde179f7a77a8f2504622537857ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:22 +0000
Subject: [PATCH 06/43] fix: archLoad: do not call a missing freeing function
 when architecture data is invalid

---
 src/libscotch/arch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 86239fe..4eb108b 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -211,7 +211,8 @@ FILE * const                stream)
   if (clasptr->archLoad != NULL) {                /* If class has loading function */
     if (clasptr->archLoad (&archptr->data, stream) != 0) { /* Load class data      */
       errorPrint ("archLoad: cannot load architecture data");
-      clasptr->archFree (&archptr->data);         /* Perform clean-up             */
+      if (clasptr->archFree != NULL)              /* If class has freeing function */
+        clasptr->archFree (&archptr->data);       /* Perform clean-up              */
       memSet (archptr, 0, sizeof (Arch));         /* Initialize architecture body */
       return (1);
     }
-- 
2.43.0


From 205bc7206e2a8bda5fb4d2d840187e905344d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:18 +0000
Subject: [PATCH 07/43] fix: SCOTCH_graphInducePart: get the base value from
 the graph when a context is bound to it

---
 src/libscotch/library_graph_induce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 050ff36..61fd358 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -109,7 +109,7 @@ const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
   return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) orggrafptr)->baseval,
+                           ((GraphPart * restrict const) parttab) - ((const Graph * const) CONTEXTOBJECT (orggrafptr))->baseval,
                            (const Gnum) vnumnbr,
                            (const GraphPart) partval,
                            (Graph * restrict const) indgrafptr));
-- 
2.43.0


From c2576dc5ee6166dfe1e9ece11ac184a2e26ed72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:54 +0000
Subject: [PATCH 08/43] fix: SCOTCH_graphOrderComputeList: report success and
 fill the output arrays when the list is empty

---
 src/libscotch/library_graph_order.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..39afafc 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -276,7 +276,8 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
 
   if (listnbr == 0) {                             /* If empty list, return identity permutation */
     intAscn (libordeptr->o.peritab, srcgrafptr->vertnbr, srcgrafptr->baseval);
-    goto abort;
+    o = 0;
+    goto build;
   }
 
   if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
@@ -373,6 +374,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
+build:
   if (libordeptr->permtab != NULL)                /* Build direct permutation if wanted */
     orderPeri (libordeptr->o.peritab, srcgrafptr->baseval, libordeptr->o.vnodnbr, libordeptr->permtab, srcgrafptr->baseval);
   if (libordeptr->rangtab != NULL)                /* Build range array if column block data wanted */
-- 
2.43.0


From f71ba41ec9f4f91c94b540aa780178693a3d2e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:54 +0000
Subject: [PATCH 09/43] fix: vgraphSeparateEs: pass the execution context to
 the bipartitioning methods

---
 src/libscotch/vgraph_separate_es.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index 65e8b82..f5905a9 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -490,6 +490,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
   actgrafdat.veextax   = NULL;                    /* No external gains                           */
   actgrafdat.parttax   = grafptr->parttax;        /* Inherit arrays from vertex separation graph */
   actgrafdat.frontab   = grafptr->frontab;
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context */
   bgraphInit2 (&actgrafdat, 1, grafptr->dwgttab[0], grafptr->dwgttab[1], 0, 0); /* Complete initialization and set all vertices to part 0 */
 
   if (bgraphBipartSt (&actgrafdat, paraptr->strat) != 0) { /* Bipartition active subgraph */
-- 
2.43.0


From e641360acb61f26f0ce0af7b812b64505871a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:54 +0000
Subject: [PATCH 10/43] fix: hgraphOrderKp: pass the execution context to the
 mapping methods

---
 src/libscotch/hgraph_order_kp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 4288c35..51f9217 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -108,6 +108,7 @@ const HgraphOrderKpParam * restrict const paraptr)
 
   hgraphUnhalo (grafptr, &actgrafdat.s);          /* Extract non-halo part of given graph       */
   actgrafdat.s.vnumtax = NULL;                    /* Do not keep numbers from nested dissection */
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context                 */
 
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
-- 
2.43.0


From 153fc6919b844b58371b678ef524af5f780c01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:54 +0000
Subject: [PATCH 11/43] fix: hmeshOrderGr: pass the execution context to the
 graph ordering methods

---
 src/libscotch/hmesh_order_gr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/hmesh_order_gr.c b/src/libscotch/hmesh_order_gr.c
index 04cad98..f7febae 100644
--- a/src/libscotch/hmesh_order_gr.c
+++ b/src/libscotch/hmesh_order_gr.c
@@ -89,6 +89,7 @@ const HmeshOrderGrParam * const paraptr)
     errorPrint ("hmeshOrderGr: cannot build halo graph");
     return (1);
   }
+  grafdat.contptr = meshptr->contptr;             /* Use same execution context */
 
   if ((o = hgraphOrderSt (&grafdat, ordeptr, ordenum, cblkptr, paraptr->stratptr)) != 0)
     errorPrint ("hmeshOrderGr: cannot order graph");
-- 
2.43.0


From 27053f8abdd42d20aed048ca75dd8c7f1fda2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:06 +0000
Subject: [PATCH 12/43] fix: hgraphOrderCp: write the expanded permutation at
 the position of the sub-graph

---
 src/libscotch/hgraph_order_cp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index 20a65d0..a3a5473 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -475,7 +475,7 @@ loop_failed: ;
   coarvpostax = coargrafdat.s.verttax;            /* Re-cycle verttab (not velotab as may be merged with coarvsiztab) */
   coarperitax = coarperitab - coargrafdat.s.baseval;
 
-  for (coarvertnum = coargrafdat.s.baseval, finevsizsum = 0; /* Compute initial indices for inverse permutation expansion */
+  for (coarvertnum = coargrafdat.s.baseval, finevsizsum = ordenum; /* Compute initial indices for inverse permutation expansion */
        coarvertnum < coargrafdat.vnohnnd; coarvertnum ++) {
     coarvpostax[coarperitax[coarvertnum]] = finevsizsum;
     finevsizsum += coarvsiztax[coarperitax[coarvertnum]];
-- 
2.43.0


From 4aaa591d906bc1893e634a7b3f6e7f67171c1950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:06 +0000
Subject: [PATCH 13/43] fix: hmeshOrderCp: write the expanded permutation at
 the position of the sub-mesh

---
 src/libscotch/hmesh_order_cp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 634f766..f3a841e 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -416,7 +416,7 @@ loop_failed: ;
   coarvpostax = coarmeshdat.m.verttax;            /* Recycle verttab (not velotab as may be merged with coarvsiztab) */
   coarperitax = coarperitab - coarmeshdat.m.vnodbas;
 
-  for (coarvnodnum = coarmeshdat.m.vnodbas, finevsizsum = 0; /* Compute initial indices for inverse permutation expansion */
+  for (coarvnodnum = coarmeshdat.m.vnodbas, finevsizsum = ordenum; /* Compute initial indices for inverse permutation expansion */
        coarvnodnum < coarmeshdat.m.vnodnnd; coarvnodnum ++) {
     coarvpostax[coarperitax[coarvnodnum]] = finevsizsum;
     finevsizsum += coarvsiztax[coarperitax[coarvnodnum]];
-- 
2.43.0


From b512ee4d1b07fb47f7ec3204d4a42d185fbe2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:23 +0000
Subject: [PATCH 14/43] fix: hallOrderHdR2Halmd: account for the weight of
 isolated variables

---
 src/libscotch/hall_order_hd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index b3b07e1..232f29b 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -495,7 +495,7 @@ Gnum * restrict     w)                            /* Flag array
       head[deg] = i;
     }
     else {
-      nel ++;
+      nel += nv[i];
       elen[i] = - nel;
       pe[i]   = 0;
       w[i]    = 0;
-- 
2.43.0


From e755550d3246935918df7cde547f2f919b154238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:42 +0000
Subject: [PATCH 15/43] fix: hgraphOrderCc: order the connected components at
 the position of the sub-graph

---
 src/libscotch/hgraph_order_cc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cc.c b/src/libscotch/hgraph_order_cc.c
index aacbb03..0703b97 100644
--- a/src/libscotch/hgraph_order_cc.c
+++ b/src/libscotch/hgraph_order_cc.c
@@ -177,7 +177,7 @@ const HgraphOrderCcParam * restrict const paraptr)
     cblkptr->cblktab[rootnum].cblktab = NULL;
   }
 
-  for (rootnum = 0, indordenum = 0; rootnum < rootnbr; rootnum ++) {
+  for (rootnum = 0, indordenum = ordenum; rootnum < rootnbr; rootnum ++) {
     Gnum                indvnohnbr;
     int                 o;
 
-- 
2.43.0


From 34127216455b1c9cae8535dfbe56cd89f523af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 16/43] fix: keep terminal domains of untied mappings across
 levels of recursive bipartitioning mapping

---
 src/libscotch/kgraph_map_rb_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index c59f952..02b92c4 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -166,6 +166,7 @@ Context * const                         contptr)
       memFree    (poolptr->jobtab);
       return (1);
     }
+    memCpy (poolptr->domntab[1], mappptr->domntab, mappptr->domnnbr * sizeof (ArchDom)); /* Both arrays start from the same domains */
   }
 
   poolptr->flagval = flagval;
@@ -207,6 +208,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
     mappptr->flagval |= MAPPINGFREEDOMN;          /* Keep current domain array as private mapping domain array */
     mappptr->domntab  = poolptr->domntab[1];
   }
+  else if (poolptr->domntab[0] != poolptr->domntab[1]) /* Else free auxiliary domain array, if any */
+    memFree (poolptr->domntab[0]);
 
   memFree (poolptr->jobtab);
 }
@@ -232,6 +235,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
   domntmp             = poolptr->domntab[0];
   poolptr->domntab[0] = poolptr->domntab[1];
   poolptr->domntab[1] = domntmp;
+  if (poolptr->domntab[0] != poolptr->domntab[1]) /* If mappings not tied, domains of terminated jobs must be kept across levels */
+    memCpy (poolptr->domntab[0], poolptr->domntab[1], poolptr->mappptr->domnnbr * sizeof (ArchDom));
 }
 
 /* This routine doubles the size all of the arrays
-- 
2.43.0


From 027f3f48b2d4914f3678df8afbea3af6dcd51d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 17/43] fix: k-way band graphs: old parts of all anchors, and
 based edge index with fixed vertices

---
 src/libscotch/kgraph_band.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 42c2a9a..149fcfa 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -264,7 +264,7 @@ abort:
       errorPrint ("kgraphBand: out of memory (5)");
       goto abort;
     }
-    memSet (bandparotax + bandvertnbr - bandgrafptr->r.m.domnnbr, ~0, bandgrafptr->r.m.domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
+    memSet (bandparotax + bandvertnbr - domnnbr, ~0, domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
     bandparotax -= bandgrafptr->s.baseval;
     bandgrafptr->r.m.flagval |= MAPPINGINCOMPLETE | MAPPINGFREEPART; /* Remapping may be incomplete */
     bandgrafptr->r.m.parttax  = bandparotax;
@@ -583,7 +583,7 @@ abort:
 
   if (pfixtax != NULL) {                          /* We have fixed vertices */
     memFree (termhashtab);                        /* Free group leader      */
-    for (bandvertnum = bandgrafptr->s.baseval, bandedgenum = 0; bandvertnum < bandvertnnd;
+    for (bandvertnum = bandedgenum = bandgrafptr->s.baseval; bandvertnum < bandvertnnd;
         bandvertnum ++) {                         /* Link anchors to vertices */
       for ( ; bandedgenum < bandverttax[bandvertnum + 1]; bandedgenum ++) {
         Gnum                  bandvertend;
-- 
2.43.0


From 3acd6b899a3e03aeed5a28dee00e7336596e5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 18/43] fix: refresh domain data after mapping is recomputed in
 k-way FM

---
 src/libscotch/kgraph_map_fm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..8553ab3 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -994,8 +994,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   const Gnum * restrict const     edgetax = grafptr->s.edgetax;
   const Gnum * restrict const     edlotax = grafptr->s.edlotax;
   const Arch * restrict const     archptr = grafptr->m.archptr;
-  const Gnum                      domnnbr = grafptr->m.domnnbr;
-  const ArchDom * restrict const  domntab = grafptr->m.domntab;
+  Gnum                            domnnbr = grafptr->m.domnnbr; /* Not constant as mapping may be recomputed */
+  const ArchDom *                 domntab = grafptr->m.domntab;
   Anum * restrict const           parttax = grafptr->m.parttax;
   Anum * restrict const           parotax = grafptr->r.m.parttax;
   const Gnum * restrict const     pfixtax = grafptr->pfixtax;
@@ -1044,6 +1044,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
         return  (0);                              /* This algorithm is still useless  */
       }
 
+      domnnbr = grafptr->m.domnnbr;
+      domntab = grafptr->m.domntab;
       if (memReallocGroup ((void *) comploadmax,  /* domnnbr has changed after mapping */
                            &comploadmax, (size_t) (domnnbr * sizeof (Gnum)),
                            &comploaddlt, (size_t) (domnnbr * sizeof (Gnum)), NULL) == NULL) {
-- 
2.43.0


From 50db795b5ec91f936b8893af5b972446873e592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 19/43] fix: stop root search of Gibbs-Poole-Stockmeyer
 bipartitioning when no vertex is left

---
 src/libscotch/bgraph_bipart_gp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_gp.c b/src/libscotch/bgraph_bipart_gp.c
index ed266c6..198006e 100644
--- a/src/libscotch/bgraph_bipart_gp.c
+++ b/src/libscotch/bgraph_bipart_gp.c
@@ -128,8 +128,10 @@ const BgraphBipartGpParam * const paraptr)        /*+ Method parameters +*/
     Gnum                diamdeg;                  /* Degree of current diameter vertex                  */
     int                 diamflag;                 /* Flag set if improvement in diameter between passes */
 
-    while (vexxtax[rootnum].passnum != 0)         /* Find first unallocated vertex */
+    while ((rootnum < grafptr->s.vertnnd) && (vexxtax[rootnum].passnum != 0)) /* Find first unallocated vertex */
       rootnum ++;
+    if (rootnum >= grafptr->s.vertnnd)            /* If all vertices moved already */
+      break;
 
     for (diamnum = rootnum, diamval = diamdeg = 0, diamflag = 1, passnum = 1; /* Start from root   */
          (passnum < paraptr->passnbr) && (diamflag -- != 0); passnum ++) { /* Loop if improvements */
-- 
2.43.0


From 56d810304fef5e08cd122f62cc9b02aafb3d10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 20/43] fix: place every fixed vertex load slot in the
 subdomain it belongs to

---
 src/libscotch/kgraph_map_rb.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..4ac65af 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -337,7 +337,7 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
 
   vflomax = vflonbr;
   if (archVar (archptr) == 0) {
-    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum < vflonnd; ) {
+    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum <= vflonnd; ) {
       while (1) {
 #ifdef SCOTCH_DEBUG_KGRAPH2
         int                 o;
@@ -370,10 +370,8 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
         archDomTerm (archptr, &domndat, vflotab[vflonnd].termnum);
         if (archDomIncl (archptr, &domnsubtab[1], &domndat) == 1) { /* If terminal vertex subdomain included in second subdomain */
           compload1 += vflotab[vflonnd].veloval;  /* Fixed vertex belongs to second subdomain                                    */
-          if (-- vflonnd <= vflonum) {            /* If matched the location of a slot that also belongs to second subdomain     */
-            compload1 += vflotab[vflonnd].veloval; /* Add load of reached slot to second subdomain                               */
+          if (-- vflonnd < vflonum)               /* If passed beyond the limit of the first subdomain                           */
             goto quit;
-          }
         }
         else {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-- 
2.43.0


From c885ff0a19e29f2faa41c2644f003aff9ae0f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 21/43] fix: bgraphZero must not count fixed loads in part 0
 load

---
 src/libscotch/bgraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph.c b/src/libscotch/bgraph.c
index 120b9d2..9ddd056 100644
--- a/src/libscotch/bgraph.c
+++ b/src/libscotch/bgraph.c
@@ -243,7 +243,7 @@ Bgraph * restrict const     grafptr)
 {
   Gnum                compload0;
 
-  compload0 = grafptr->s.velosum + grafptr->vfixload[0];
+  compload0 = grafptr->s.velosum;                 /* Fixed loads are accounted for in compload0avg only */
   grafptr->fronnbr      = 0;                      /* No frontier vertices */
   grafptr->compload0dlt = compload0 - grafptr->compload0avg;
   grafptr->compload0    = compload0;
-- 
2.43.0


From 60fa5c90be4d5d62f5e5d85c48682d5ec9a8a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 22/43] fix: edge-based overlap partitioning when mapping has
 fewer domains than parts

---
 src/libscotch/wgraph_part_es.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..1fe5a9a 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -111,7 +111,8 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
   comploadtab = grafptr->compload;
   compsizetab = grafptr->compsize;
 
-  for (partnum = 0; partnum < partnbr; partnum ++)
+  memSet (comploadtab, 0, partnbr * sizeof (Gnum)); /* Some parts may not be represented in mapping */
+  for (partnum = 0; partnum < actgrafdat.m.domnnbr; partnum ++)
     comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] = actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
 
   memSet (compsizetab, 0, partnbr * sizeof (Gnum));
-- 
2.43.0


From 2a0932e5c0526972c9fbfae8b856a889aa75efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 23/43] fix: overlap recursive bipartitioning when the second
 part is empty

---
 src/libscotch/wgraph_part_rb.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..6591cef 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -354,13 +354,19 @@ const WgraphPartRbSplit * const spltptr)
 
   if ((partval = 1, actgrafdat.compsize[0] <= 0) || /* If a subpart is empty, run on other part (without considering separator vertices) */
       (partval = 0, actgrafdat.compsize[1] <= 0)) {
+    if (spltdat.splttab[partval].domnsiz <= 1) {  /* If non-empty part is terminal, all vertices belong to it */
+      vgraphZero        (&actgrafdat);
+      wgraphPartRb3Both (dataptr, &actgrafdat.s, actgrafdat.parttax, spltdat.splttab[partval].domnnum);
+      vgraphExit        (&actgrafdat);
+      return;
+    }
     spltdat.splttab[1].vertnbr = actgrafdat.s.vertnbr; /* TRICK: use fake part 1 for calling */
     spltdat.splttab[1].domnnum = spltdat.splttab[partval].domnnum;
     spltdat.splttab[1].domnsiz = spltdat.splttab[partval].domnsiz;
     spltdat.frontab = NULL;                       /* No separator vertices, even if they were some */
     spltdat.fronnbr = 0;
     spltdat.parttax = NULL;
-    wgraphPartRb2 (contptr, partval, &spltdat);
+    wgraphPartRb2 (contptr, 1, &spltdat);
     vgraphExit    (&actgrafdat);
     if (o != 0)
       goto abort;
-- 
2.43.0


From 1cb1e8ddfacfab5f865d3318af6cf2ea59530272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 24/43] fix: resize load arrays after copy of old mapping

---
 src/libscotch/kgraph_map_cp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/kgraph_map_cp.c b/src/libscotch/kgraph_map_cp.c
index 6aafe86..57a29d5 100644
--- a/src/libscotch/kgraph_map_cp.c
+++ b/src/libscotch/kgraph_map_cp.c
@@ -96,6 +96,12 @@ Kgraph * restrict const     grafptr)              /*+ Graph +*/
     }
   }
 
+  if (memReallocGroup (grafptr->comploadavg,      /* Reallocate cost array according to potential new size                                        */
+                       &grafptr->comploadavg, (size_t) (grafptr->m.domnmax * sizeof (Gnum)), /* TRICK: can send both compload arrays in one piece */
+                       &grafptr->comploaddlt, (size_t) (grafptr->m.domnmax * sizeof (Gnum)), NULL) == NULL) {
+    errorPrint ("kgraphMapCp: out of memory");
+    return (1);
+  }
   kgraphFron (grafptr);
   kgraphCost (grafptr);
 
-- 
2.43.0


From 405dc76901921a0b2fcc67184431fb2a2ccc40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:17 +0000
Subject: [PATCH 25/43] fix: k-way FM must not recompute the mapping of a band
 graph

---
 src/libscotch/kgraph_map_fm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 8553ab3..0ea69ef 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -1029,7 +1029,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       if (abs (grafptr->comploaddlt[domnnum]) > comploadmax[domnnum])
         break;
     }
-    if (domnnum == domnnbr) {                     /* If balance is correct */
+    if ((domnnum == domnnbr) ||                   /* If balance is correct                                    */
+        ((grafptr->s.flagval & KGRAPHHASANCHORS) != 0)) { /* Or if band graph, the domains of which must not change */
       memFree (comploadmax);                      /* Nothing to do         */
       return  (0);
     }
-- 
2.43.0


From 1e6b20ad6fb1647cbaaf70a7217f3cea1f352bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:41 +0000
Subject: [PATCH 26/43] fix: graphLoad: reject negative labels, arc ends and
 degrees instead of using them as indices

---
 src/libscotch/graph_io.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..7b78950 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -217,16 +217,16 @@ const GraphFlag             flagval)              /* Graph loading flags
       graphFree  (grafptr);
       return (1);
     }
+    if ((degrval < 0) || (degrval > (edgennd - edgenum))) { /* Check if edge array overflows */
+      errorPrint ("graphLoad: invalid arc count (1)");
+      graphFree  (grafptr);
+      return (1);
+    }
     if (degrmax < degrval)                        /* Set maximum degree */
       degrmax = degrval;
 
     grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array */
     degrval += edgenum;
-    if (degrval > edgennd) {                      /* Check if edge array overflows */
-      errorPrint ("graphLoad: invalid arc count (1)");
-      graphFree  (grafptr);
-      return (1);
-    }
 
     for ( ; edgenum < degrval; edgenum ++) {
       if (proptab[1] != 0) {                      /* If must read edge load        */
@@ -299,6 +299,11 @@ const Gnum * const          vlbltax)
 
   memSet (indxtab, ~0, (vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
   for (vertnum = baseval; vertnum < vertnnd; vertnum ++) {
+    if (vlbltax[vertnum] < 0) {                   /* If invalid vertex label */
+      errorPrint  ("graphLoad2: invalid vertex label");
+      memFree     (indxtab);
+      return (1);
+    }
     if (indxtab[vlbltax[vertnum]] != ~0) {        /* If vertex label already used */
       errorPrint  ("graphLoad2: duplicate vertex label");
       memFree     (indxtab);
@@ -310,7 +315,8 @@ const Gnum * const          vlbltax)
     Gnum                edgenum;                  /* Number of current edge */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
-      if (edgetax[edgenum] > vlblmax) {           /* If invalid edge end number */
+      if ((edgetax[edgenum] < 0) ||               /* If invalid edge end number */
+          (edgetax[edgenum] > vlblmax)) {
         errorPrint ("graphLoad2: invalid arc end number (1)");
         memFree    (indxtab);
         return (1);
-- 
2.43.0


From 2736b55c431205095cd0e6b32df7b39073b03e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:04 +0000
Subject: [PATCH 27/43] fix: graphTabLoad: use the graph base for labels and
 stop at the end of the mapping data

---
 src/libscotch/library_graph_map_io.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index c982276..36be0b1 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -150,7 +150,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     vertsortflag = 1;                             /* Assume graph data sorted */
     vertsortlabl = GNUMMIN;
     for (vertsortnum = 0; vertsortnum < vertnbr; vertsortnum ++) {
-      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum];
+      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum + grafptr->baseval];
       vertsorttab[vertsortnum].num  = vertsortnum;
 
       if (vertsorttab[vertsortnum].labl < vertsortlabl) /* Check if graph data sorted */
@@ -161,15 +161,14 @@ FILE * const                  stream)             /*+ Input stream  +*/
       intSort2asc1 (vertsorttab, vertnbr);        /* Sort sort area by ascending labels */
 
     for (vertsortnum = 0, mappfilenum = 0; vertsortnum < vertnbr; vertsortnum ++) { /* For all vertices in graph */
-      while (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl) {
-        mappfilenum ++;                           /* Search mapping vertex with same label */
-        if (mappfilenum >= mappfilenbr)           /* If all mapping data processed         */
-          goto end;                               /* Exit main loop                        */
-      }
+      while ((mappfilenum < mappfilenbr) &&       /* Search mapping vertex with same label */
+             (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl))
+        mappfilenum ++;
+      if (mappfilenum >= mappfilenbr)             /* If all mapping data processed */
+        break;                                    /* Exit main loop                */
       if (mappsorttab[mappfilenum].labl == vertsorttab[vertsortnum].labl) /* If label match found */
         ((Anum *) parttab)[vertsorttab[vertsortnum].num] = mappsorttab[mappfilenum ++].num;
     }
-end: ;
   }
   else {                                          /* Graph does not have vertex labels */
     const Gnum          baseval = grafptr->baseval;
-- 
2.43.0


From f3be1e7b427ca0c06f9d07592391519c31655384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:19 +0000
Subject: [PATCH 28/43] fix: orderLoad: accept only a permutation of the
 ordering's own size

---
 src/libscotch/order_io.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..a196fa9 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -81,6 +81,7 @@ const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
   Gnum * restrict     permtab;
+  Gnum                vnodnbr;
   Gnum                vertnum;
 
   if (vlbltax != NULL) {
@@ -93,7 +94,8 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
+  if ((intLoad (stream, &vnodnbr) != 1) ||
+      (vnodnbr != ordeptr->vnodnbr)) {            /* Ordering must be that of the structure */
     errorPrint ("orderLoad: bad input (1)");
     memFree    (permtab);
     return     (1);
@@ -117,7 +119,19 @@ FILE * restrict const       stream)
     }
   }
 
-  orderPeri (permtab, ordeptr->baseval, ordeptr->vnodnbr, ordeptr->peritab, ordeptr->baseval); /* Compute inverse permutation */
+  memSet (ordeptr->peritab, ~0, ordeptr->vnodnbr * sizeof (Gnum));
+  for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) { /* Check that loaded data is a permutation */
+    Gnum                permval;
+
+    permval = permtab[vertnum] - ordeptr->baseval;
+    if ((permval < 0) || (permval >= ordeptr->vnodnbr) ||
+        (ordeptr->peritab[permval] != ~0)) {
+      errorPrint ("orderLoad: bad input (4)");
+      memFree    (permtab);
+      return     (1);
+    }
+    ordeptr->peritab[permval] = vertnum + ordeptr->baseval; /* Compute inverse permutation */
+  }
 
   memFree (permtab);
   return  (0);
-- 
2.43.0


From 578f61aafaa80f8103c842b47bc6c6b5ab6f01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:30 +0000
Subject: [PATCH 29/43] fix: graphGeomLoadChac: check the arc count before
 writing past the edge arrays

---
 src/libscotch/graph_io_chac.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 53c97ea..828a5d6 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -112,7 +112,9 @@ const char * const          dataptr)              /* No use           */
       (sscanf (chalinetab, "%ld%ld%ld",
                &chavertnbr,
                &chaedgenbr,
-               &chaflagval) < 2)) {
+               &chaflagval) < 2) ||
+      (chavertnbr < 0) ||
+      (chaedgenbr < 0)) {
     errorPrint ("graphGeomLoadChac: bad input (1)");
     return     (1);
   }
@@ -212,6 +214,11 @@ const char * const          dataptr)              /* No use           */
 
       ungetc (chabuffcar, filesrcptr);            /* Else put character back to stream */
 
+      if (edgenum > grafptr->edgenbr) {           /* Test edge array overflow before writing to it */
+        errorPrint ("graphGeomLoadChac: bad input (5)");
+        graphFree  (grafptr);
+        return     (1);
+      }
       if ((intLoad (filesrcptr, &chavertnum) != 1) ||
           (chavertnum < 1)                         ||
           (chavertnum > chavertnbr)                ||
@@ -222,18 +229,18 @@ const char * const          dataptr)              /* No use           */
         graphFree  (grafptr);
         return     (1);
       }
-      if (edgenum > (grafptr->edgenbr + 1)) { /* Test edge array overflow */
-        errorPrint ("graphGeomLoadChac: bad input (5)");
-        graphFree  (grafptr);
-        return     (1);
-      }
       grafptr->edgetax[edgenum ++] = chavertnum;
     }
 
     if ((edgenum - grafptr->verttax[vertnum]) > degrmax)
       degrmax = edgenum - grafptr->verttax[vertnum];
   }
-  grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array */
+  grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array     */
+  if (edgenum != (grafptr->edgenbr + 1)) {        /* Check if number of edges is valid */
+    errorPrint ("graphGeomLoadChac: bad input (6)");
+    graphFree  (grafptr);
+    return     (1);
+  }
   grafptr->velosum = velosum;
   grafptr->edlosum = edlosum;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From c5caee42c67d08ef859a167f83c675af004e355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:51 +0000
Subject: [PATCH 30/43] fix: graphGeomLoadMmkt: fill the vertex array up to the
 end given by the base value

---
 src/libscotch/graph_io_mmkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 2d89f68..b97460e 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -224,7 +224,7 @@ const char * const          dataptr)              /* Fake base value  */
   edgetmp = edgenum - edgetmp;                    /* Compute degree and see if it is maximum degree */
   if (edgetmp > degrmax)
     degrmax = edgetmp;
-  while (vertnum < mrownbr)                       /* Fill gaps with isolated vertices and mark beginning of new one */
+  while (vertnum < (grafptr->vertnnd - 1))        /* Fill gaps with isolated vertices and mark beginning of new one */
     grafptr->verttax[++ vertnum] = edgenum;
   grafptr->verttax[++ vertnum] = edgenum;         /* Mark end of array */
 
-- 
2.43.0


From 89c42cf37d73e11b3f55ecbe0e48f6cc6b49640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:08 +0000
Subject: [PATCH 31/43] fix: graphGeomLoadScot: report the dimension and take
 the graph base into account

---
 src/libscotch/graph_io_scot.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..eab9051 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -118,6 +118,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
+  geomptr->dimnnbr = (int) dimnnbr;
 
   if (memAllocGroup ((void **)
                      &coorfileptr, (size_t) (coornbr * dimnnbr * sizeof (double)),
@@ -180,9 +181,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vertsorttab, grafptr->vertnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++)
-      vertsorttab[vertnum].labl =
+    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
+      vertsorttab[vertnum].labl = vertnum + grafptr->baseval;
       vertsorttab[vertnum].num  = vertnum;
+    }
   }
 
   for (coornum = vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) { /* For all vertices in graph */
-- 
2.43.0


From f24bcc6125bb57309f815fb425ee239effb79715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 32/43] fix: SCOTCH_contextOptionSetNum must select the option
 by its number, not by the value

---
 src/libscotch/library_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_context.c b/src/libscotch/library_context.c
index 09b6c79..9939c61 100644
--- a/src/libscotch/library_context.c
+++ b/src/libscotch/library_context.c
@@ -303,7 +303,7 @@ const SCOTCH_Num            optival)
   optitmp = optival;                              /* Set working value */
   o = 0;                                          /* Assume no error   */
 
-  switch (optival) {
+  switch (optinum) {
     case CONTEXTOPTIONNUMRANDOMFIXEDSEED :
       if (optitmp != 0)
         optitmp = 1;                              /* Only two values available */
-- 
2.43.0


From 1e0fbecad797af8fce5f638323919d29582b9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 33/43] fix: meshGraph, meshGraphDual: always make room for
 more edges when the edge array is full

---
 src/libscotch/mesh_graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..53a68dc 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -174,7 +174,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
               Gnum * restrict     edgetmp;
 
               edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-              edgemax = edgemax + (edgemax >> 2);
+              edgemax = edgemax + (edgemax >> 2) + 4;
 
               if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                 errorPrint ("meshGraph: out of memory (3)");
@@ -325,7 +325,7 @@ test:         if (nghbnbr <= 0) {                 /* If new instance allows us t
                   Gnum * restrict     edgetmp;
 
                   edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-                  edgemax = edgemax + (edgemax >> 2);
+                  edgemax = edgemax + (edgemax >> 2) + 4;
 
                   if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                     errorPrint ("meshGraphDual: out of memory (3)");
-- 
2.43.0


From 03df8b4f9b396bdfbc283de24df927bf40afa835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 34/43] fix: meshGraphDual: keep the element loads, as the load
 sum does

---
 src/libscotch/mesh_graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index 53a68dc..491b3c6 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -263,7 +263,9 @@ const Gnum                  noconbr)              /*+ number of common points to
   }
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;
-  grafptr->velotax  = NULL;                       /* TODO: not implemented */
+  grafptr->velotax  = (meshptr->velotax != NULL)  /* Keep element part of mesh vertex load array as graph vertex load array    */
+                      ? meshptr->velotax + meshptr->velmbas - grafptr->baseval /* Since GRAPHVERTGROUP, no problem on graphFree */
+                      : NULL;
   grafptr->velosum  = meshptr->velosum;
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
-- 
2.43.0


From bd8bdfcee323d6e3397f4e9c0330d12dc8ab7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 35/43] fix: meshSave: write the loads of the nodes when
 elements come first

---
 src/libscotch/mesh_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..bf6ee86 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -353,7 +353,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
-- 
2.43.0


From 2e6b44ae75241947eaef80f25f0a5f1f20bf48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 36/43] fix: meshSave: report write errors of the first part of
 the mesh

---
 src/libscotch/mesh_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index bf6ee86..fdad50d 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -364,7 +364,7 @@ FILE * restrict const       stream)
     velotabtab[1] = meshptr->velotax;
     edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval;
   }
-  for (i = 0; i < 2; i ++) {                      /* For both kinds of vertices */
+  for (i = 0, o = 0; i < 2; i ++) {               /* For both kinds of vertices */
     Gnum                vertbas;
     Gnum                vertnnd;
     Gnum * restrict     velotax;
@@ -376,7 +376,7 @@ FILE * restrict const       stream)
     velotax = velotabtab[i];
     edgeadj = edgeadjtab[i];
 
-    for (vertnum = vertbas, o = 0; (vertnum < vertnnd) && (o == 0); vertnum ++) {
+    for (vertnum = vertbas; (vertnum < vertnnd) && (o == 0); vertnum ++) {
       Gnum                edgenum;
 
       if (meshptr->vlbltax != NULL)               /* Write vertex label if necessary */
-- 
2.43.0


From a357215775b29759b84298451cff1a87cd06c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 37/43] fix: meshLoad: renumber edge ends when the base changes

---
 src/libscotch/mesh_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index fdad50d..e0f29af 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -205,7 +205,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
 
     vertbas = vertbastab[i];
     vertnnd = vertnndtab[i];
-    edgeadj = edgeadjtab[i];
+    edgeadj = edgeadjtab[i] + baseadj;            /* Take change of base into account */
     velosum = 0;
     velomax = 1;                                  /* Assume vertex loads all equal to 1 */
 
-- 
2.43.0


From c80db6982f7ad56f6043d729b6658f02b509b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 38/43] fix: meshLoad: refuse negative numbers of arcs

---
 src/libscotch/mesh_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index e0f29af..1d5582e 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -121,6 +121,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (intLoad (stream, &propval)          != 1) ||
       (velmnbr < 0)                              ||
       (vnodnbr < 0)                              ||
+      (meshptr->edgenbr < 0)                     ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
       (propval < 0)                              ||
@@ -234,7 +235,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         meshptr->velotax[vertnum] = veloval;
         velosum += veloval;
       }
-      if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
+      if ((intLoad (stream, &degrval) != 1) ||    /* Read vertex degree */
+          (degrval < 0)) {
         errorPrint ("meshLoad: bad input (5)");
         meshFree   (meshptr);
         return     (1);
-- 
2.43.0


From 0008ec3d1a4cb28772d1ac91712d5a2f8b2203e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 39/43] fix: meshLoad: count the isolated elements

---
 src/libscotch/mesh_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 1d5582e..816c203 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -243,6 +243,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
+      if ((degrval == 0) && (vertbas == meshptr->velmbas)) /* Count isolated elements */
+        meshptr->veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
       degrval += edgenum;
-- 
2.43.0


From 697103b53fb669f2ff6e0109d69faf8ad6c9996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 40/43] fix: meshGeomLoadHabo: set the load sum of the elements

---
 src/libscotch/mesh_io_habo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index daa7853..46bf9de 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -183,6 +183,7 @@ const char * const          dataptr)              /* No use           */
   meshptr->vnodnbr = habvarnbr;
   meshptr->vnodbas = 1;
   meshptr->vnodnnd = meshptr->velmbas;
+  meshptr->velosum = habeltnbr;
   meshptr->vnlosum = habvarnbr;
 
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
-- 
2.43.0


From c5763ae7afde75fc00f5803d6c2c40dab0618306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 41/43] fix: meshBase: adjust the accesses to the load arrays

---
 src/libscotch/mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/mesh.c b/src/libscotch/mesh.c
index 3ca20db..8ae16a9 100644
--- a/src/libscotch/mesh.c
+++ b/src/libscotch/mesh.c
@@ -176,6 +176,10 @@ const Gnum                  baseval)
   meshptr->vendtax -= baseadj;
   meshptr->edgetax -= baseadj;
 
+  if (meshptr->velotax != NULL)
+    meshptr->velotax -= baseadj;
+  if (meshptr->vnlotax != NULL)
+    meshptr->vnlotax -= baseadj;
   if (meshptr->vnumtax != NULL)
     meshptr->vnumtax -= baseadj;
   if (meshptr->vlbltax != NULL)
-- 
2.43.0


From ec07736c6e1f1b609901fbb430b808dde64bb674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 42/43] fix: meshGeomLoadScot: report the dimension and use the
 numbers that meshGeomSaveScot writes

---
 src/libscotch/mesh_io_scot.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..b4df2ae 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -111,6 +111,8 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vnodnbr == 0)
     return (0);
 
+  geomptr->dimnnbr = dimnnbr;
+
   if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
       ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL)) {
     errorPrint ("meshGeomLoadScot: out of memory (1)");
@@ -166,7 +168,7 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vlbltax != NULL) {                 /* If graph has vertex labels */
     vnodsortflag = 1;                             /* Assume graph data sorted   */
     for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
-      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->baseval];
+      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->vnodbas];
       vnodsorttab[vnodnum].num  = vnodnum;
       if ((vnodnum > 0) &&                        /* Check if graph data sorted */
           (vnodsorttab[vnodnum].labl < vnodsorttab[vnodnum - 1].labl))
@@ -176,9 +178,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vnodsorttab, meshptr->vnodnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++)
-      vnodsorttab[vnodnum].labl =
+    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
+      vnodsorttab[vnodnum].labl = vnodnum + meshptr->vnodbas;
       vnodsorttab[vnodnum].num  = vnodnum;
+    }
   }
 
   for (coornum = vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 1e761191c308d0ced329777851d7f24096513e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:32 +0000
Subject: [PATCH 43/43] fix: meshLoad: keep the access to the load array when
 the element loads are all equal to 1

---
 src/libscotch/mesh_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 816c203..0daf9a4 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -100,6 +100,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                degrmax;
   Gnum                propval;
   char                proptab[4];
+  Gnum *              velotax;                    /* Load array of both kinds of vertices */
   Gnum                vertbastab[2];
   Gnum                vertnndtab[2];
   Gnum                edgeadjtab[2];
@@ -169,7 +170,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->verttax -= meshptr->baseval;
   meshptr->vendtax  = meshptr->verttax + 1;       /* Use compact vertex array */
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
-  meshptr->vnlotax  = meshptr->velotax;
+  meshptr->vnlotax  =
+  velotax           = meshptr->velotax;
   meshptr->vlbltax  = (vlblnbr != 0) ? (meshptr->vlbltax - meshptr->baseval) : NULL;
   meshptr->velosum  = meshptr->velmnbr;           /* Assume element and node vertices not weighted */
   meshptr->vnlosum  = meshptr->vnodnbr;
@@ -232,7 +234,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         }
         if (veloval > velomax)
           velomax = veloval;
-        meshptr->velotax[vertnum] = veloval;
+        velotax[vertnum] = veloval;               /* Field may have been reset if element loads not significant */
         velosum += veloval;
       }
       if ((intLoad (stream, &degrval) != 1) ||    /* Read vertex degree */
-- 
2.43.0

