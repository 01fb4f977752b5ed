module Bimesh
  use prelude.Prelude
  use sums.Sums
  (* bipartite adjacency: arcs of v are vt[v] <= e < vd[v]; f is the only arc from u to v *)
  predicate marc (m: map int int) (vt vd v e: int) = m[ix vt v] <= e < m[ix vd v]
  predicate mrev (m: map int int) (vt vd et u v f: int) =
    marc m vt vd u f /\ m[ix et f] = v /\ (forall g [m[ix et g]]. marc m vt vd u g -> m[ix et g] = v -> g = f)
  (* arc e of v, a vertex of the kind lo .. hi-1: it ends in b .. n-1, outside the kind, and has one opposite arc *)
  predicate marcok (m: map int int) (vt vd et b n lo hi v e: int) =
    b <= m[ix et e] < n /\ not (lo <= m[ix et e] < hi) /\ exists f. mrev m vt vd et m[ix et e] v f
  predicate mvertok (m: map int int) (vt vd et b n lo hi v: int) =
    b <= m[ix vt v] <= m[ix vd v] /\ (forall e [marcok m vt vd et b n lo hi v e]. marc m vt vd v e -> marcok m vt vd et b n lo hi v e)
  (* number of vertices of a .. z-1 without arcs *)
  let rec ghost function iso (m: map int int) (vt vd a z: int) : int
    variant { z - a }
  = if z <= a then 0 else iso m vt vd a (z - 1) + (if m[ix vd (z - 1)] = m[ix vt (z - 1)] then 1 else 0)
end
