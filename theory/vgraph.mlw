module Vgraph
  use prelude.Prelude
  use sums.Sums
  (* m: memory of integers; vt, vd, et, lt: based arrays of arc range starts, ends, arc ends, arc loads; arcs of v: vt[v] <= e < vd[v] *)
  predicate arc (m: map int int) (vt vd v e: int) = m[ix vt v] <= e < m[ix vd v]
  (* f is the only arc from u to v, and has the load of arc e *)
  predicate rev (m: map int int) (vt vd et lt u v e f: int) =
    arc m vt vd u f /\ m[ix et f] = v /\ (lt <> 0 -> m[ix lt e] = m[ix lt f]) /\
    (forall g [m[ix et g]]. arc m vt vd u g -> m[ix et g] = v -> g = f)
  predicate arcok (m: map int int) (vt vd et lt b n v e: int) =
    b <= m[ix et e] < n /\ m[ix et e] <> v /\ (lt <> 0 -> m[ix lt e] >= 0) /\
    exists f. rev m vt vd et lt m[ix et e] v e f
  predicate vertok (m: map int int) (vt vd et lt wt b n v: int) =
    b <= m[ix vt v] <= m[ix vd v] /\ (wt <> 0 -> m[ix wt v] >= 0) /\
    (forall e [arcok m vt vd et lt b n v e]. arc m vt vd v e -> arcok m vt vd et lt b n v e)
  (* number of arcs and sum of arc loads of the vertices a .. z-1 *)
  let rec ghost function degs (m: map int int) (vt vd a z: int) : int
    variant { z - a }
  = if z <= a then 0 else degs m vt vd a (z - 1) + (m[ix vd (z - 1)] - m[ix vt (z - 1)])
  let rec ghost function arcs (m: map int int) (vt vd lt a z: int) : int
    variant { z - a }
  = if z <= a then 0 else arcs m vt vd lt a (z - 1) + psum m lt m[ix vt (z - 1)] m[ix vd (z - 1)]
end
