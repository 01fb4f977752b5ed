module Stat
  use prelude.Prelude
  predicate dreach (m: map int int) (vt vd lo hi d: int) = exists v. lo <= v < hi /\ m[ix vd v] - m[ix vt v] = d
  predicate vreach (m: map int int) (t lo hi d: int) = exists v. lo <= v < hi /\ m[ix t v] = d
  (* some arc of the vertices lo .. hi-1, or of vertex hi up to arc z, has load d *)
  predicate ereach (m: map int int) (vt vd lt lo hi z d: int) = exists v e. lo <= v <= hi /\ m[ix vt v] <= e < (if v = hi then z else m[ix vd v]) /\ m[ix lt e] = d
  lemma ereach_next : forall m vt vd lt lo hi d. lo <= hi -> ereach m vt vd lt lo hi m[ix vd hi] d -> ereach m vt vd lt lo (hi + 1) m[ix vt (hi + 1)] d
end
