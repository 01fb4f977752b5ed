module Matching
  use prelude.Prelude
  predicate oddn (q: int) = q = 2 * half q + 1
  (* partial matching: negative = not mated yet *)
  function mwi (t v: int) : int
  axiom mwi_def : forall t v [mwi t v]. mwi t v = 0   (* only a trigger *)
  predicate pm (m: map int int) (t b n: int) = forall v [mwi t v]. mwi t v = 0 -> b <= v < n -> m[ix t v] < 0 \/ (b <= m[ix t v] < n /\ m[ix t (m[ix t v])] = v)
  predicate adj (m: map int int) (vt vd et v w: int) = exists e. m[ix vt v] <= e < m[ix vd v] /\ m[ix et e] = w
  predicate isol (m: map int int) (vt vd v: int) = m[ix vt v] = m[ix vd v]
  (* a vertex is mated with itself, a neighbour, or, when this is allowed, through an isolated vertex *)
  predicate mateok (m: map int int) (vt vd et nomerge v w: int) = v = w \/ adj m vt vd et v w \/ adj m vt vd et w v \/ (nomerge = 0 /\ (isol m vt vd v \/ isol m vt vd w))
  let rec ghost function reps (m: map int int) (t a b: int) : int
    variant { b - a }
  = if b <= a then 0 else reps m t a (b - 1) + (if m[ix t (b - 1)] >= b - 1 then 1 else 0)
  let rec ghost reps_same (m1 m2: map int int) (t a b: int) : unit
    requires { forall x [m2[ix t x]]. a <= x < b -> m2[ix t x] = m1[ix t x] }
    ensures { reps m2 t a b = reps m1 t a b }
    variant { b - a }
  = if a < b then reps_same m1 m2 t a (b - 1)
  let rec ghost reps_one (m1 m2: map int int) (t a b w: int) : unit
    requires { 0 <= a <= w < b /\ m1[ix t w] < 0 /\ m2[ix t w] >= w }
    requires { forall x [m2[ix t x]]. a <= x < b -> x <> w -> m2[ix t x] = m1[ix t x] }
    ensures { reps m2 t a b = reps m1 t a b + 1 }
    variant { b - a }
  = if w = b - 1 then reps_same m1 m2 t a (b - 1) else reps_one m1 m2 t a (b - 1) w
  let rec ghost reps_pair (m1 m2: map int int) (t a b v w: int) : unit
    requires { 0 <= a /\ a <= v < b /\ a <= w < b /\ m1[ix t v] < 0 /\ m1[ix t w] < 0 /\ m2[ix t v] = w /\ m2[ix t w] = v }
    requires { forall x [m2[ix t x]]. a <= x < b -> x <> v -> x <> w -> m2[ix t x] = m1[ix t x] }
    ensures { reps m2 t a b = reps m1 t a b + 1 }
    variant { b - a }
  = if v = b - 1 && w = b - 1 then reps_same m1 m2 t a (b - 1)
    else if v = b - 1 then reps_one m1 m2 t a (b - 1) w
    else if w = b - 1 then reps_one m1 m2 t a (b - 1) v
    else reps_pair m1 m2 t a (b - 1) v w
  let ghost pm_pair (m1 m2: map int int) (t b n v w: int) : unit
    requires { pm m1 t b n /\ 0 <= b <= v < n /\ b <= w < n /\ m1[ix t v] < 0 /\ m1[ix t w] < 0 /\ m2[ix t v] = w /\ m2[ix t w] = v }
    requires { forall x [m2[ix t x]]. b <= x < n -> x <> v -> x <> w -> m2[ix t x] = m1[ix t x] }
    ensures { pm m2 t b n }
  = assert { forall x [mwi t x]. mwi t x = 0 -> b <= x < n -> x <> v -> x <> w -> m1[ix t x] >= 0 -> m1[ix t x] <> v /\ m1[ix t x] <> w }
end
