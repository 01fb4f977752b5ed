(* recursion over a range, given by the two equations that cannot loop in the solvers; module Real shows that they have a model *)
module Sig
  use prelude.Prelude
  use induce.Induce
  val ghost function msum (m: map int int) (vt vd it l a z: int)  : int
  axiom msum_0 : forall m vt vd it l a z [msum m vt vd it l a z]. z <= a -> msum m vt vd it l a z = 0
  axiom msum_1 : forall m vt vd it l a z w_ [msum m vt vd it l a z, msum m vt vd it l a w_]. w_ = z - 1 -> a < z -> msum m vt vd it l a z = msum m vt vd it l a w_ + (if m[ix it w_] <> -1 && m[ix it w_] < l then m[ix vd w_] - m[ix vt w_] else 0)
  val ghost function degs (m: map int int) (vt vd a z: int)  : int
  axiom degs_0 : forall m vt vd a z [degs m vt vd a z]. z <= a -> degs m vt vd a z = 0
  axiom degs_1 : forall m vt vd a z w_ [degs m vt vd a z, degs m vt vd a w_]. w_ = z - 1 -> a < z -> degs m vt vd a z = degs m vt vd a w_ + (m[ix vd w_] - m[ix vt w_])
  val ghost function cnt (m: map int int) (et a z w: int)  : int
  axiom cnt_0 : forall m et a z w [cnt m et a z w]. z <= a -> cnt m et a z w = 0
  axiom cnt_1 : forall m et a z w w_ [cnt m et a z w, cnt m et a w_ w]. w_ = z - 1 -> a < z -> cnt m et a z w = cnt m et a w_ w + (if m[ix et w_] = w then 1 else 0)
  val ghost function klt (m: map int int) (et it b l a z: int)  : int
  axiom klt_0 : forall m et it b l a z [klt m et it b l a z]. z <= a -> klt m et it b l a z = 0
  axiom klt_1 : forall m et it b l a z w_ [klt m et it b l a z, klt m et it b l a w_]. w_ = z - 1 -> a < z -> klt m et it b l a z = klt m et it b l a w_ + (if b <= m[ix it m[ix et w_]] < l then 1 else 0)
  val ghost function fro (m: map int int) (vt vd et vn u b j: int)  : int
  axiom fro_0 : forall m vt vd et vn u b j [fro m vt vd et vn u b j]. j <= b -> fro m vt vd et vn u b j = 0
  axiom fro_1 : forall m vt vd et vn u b j w_ [fro m vt vd et vn u b j, fro m vt vd et vn u b w_]. w_ = j - 1 -> b < j -> fro m vt vd et vn u b j = fro m vt vd et vn u b w_ + cnt m et m[ix vt u] m[ix vd u] m[ix vn w_]
  val ghost function too (m: map int int) (vt vd et vn u b j: int)  : int
  axiom too_0 : forall m vt vd et vn u b j [too m vt vd et vn u b j]. j <= b -> too m vt vd et vn u b j = 0
  axiom too_1 : forall m vt vd et vn u b j w_ [too m vt vd et vn u b j, too m vt vd et vn u b w_]. w_ = j - 1 -> b < j -> too m vt vd et vn u b j = too m vt vd et vn u b w_ + cnt m et m[ix vt m[ix vn w_]] m[ix vd m[ix vn w_]] u
  val ghost function asum (m: map int int) (vt vd et it vn b l j: int)  : int
  axiom asum_0 : forall m vt vd et it vn b l j [asum m vt vd et it vn b l j]. j <= b -> asum m vt vd et it vn b l j = 0
  axiom asum_1 : forall m vt vd et it vn b l j w_ [asum m vt vd et it vn b l j, asum m vt vd et it vn b l w_]. w_ = j - 1 -> b < j -> asum m vt vd et it vn b l j = asum m vt vd et it vn b l w_ + klt m et it b l m[ix vt m[ix vn w_]] m[ix vd m[ix vn w_]]
end
module Real
  use prelude.Prelude
  use induce.Induce
  let rec ghost function msum_r (m: map int int) (vt vd it l a z: int) : int variant { z - a }
  = if z <= a then 0 else msum_r m vt vd it l a (z - 1) + (if m[ix it (z - 1)] <> -1 && m[ix it (z - 1)] < l then m[ix vd (z - 1)] - m[ix vt (z - 1)] else 0)
  let rec ghost function degs_r (m: map int int) (vt vd a z: int) : int variant { z - a }
  = if z <= a then 0 else degs_r m vt vd a (z - 1) + (m[ix vd (z - 1)] - m[ix vt (z - 1)])
  let rec ghost function cnt_r (m: map int int) (et a z w: int) : int variant { z - a }
  = if z <= a then 0 else cnt_r m et a (z - 1) w + (if m[ix et (z - 1)] = w then 1 else 0)
  let rec ghost function klt_r (m: map int int) (et it b l a z: int) : int variant { z - a }
  = if z <= a then 0 else klt_r m et it b l a (z - 1) + (if b <= m[ix it m[ix et (z - 1)]] < l then 1 else 0)
  let rec ghost function fro_r (m: map int int) (vt vd et vn u b j: int) : int variant { j - b }
  = if j <= b then 0 else fro_r m vt vd et vn u b (j - 1) + cnt_r m et m[ix vt u] m[ix vd u] m[ix vn (j - 1)]
  let rec ghost function too_r (m: map int int) (vt vd et vn u b j: int) : int variant { j - b }
  = if j <= b then 0 else too_r m vt vd et vn u b (j - 1) + cnt_r m et m[ix vt m[ix vn (j - 1)]] m[ix vd m[ix vn (j - 1)]] u
  let rec ghost function asum_r (m: map int int) (vt vd et it vn b l j: int) : int variant { j - b }
  = if j <= b then 0 else asum_r m vt vd et it vn b l (j - 1) + klt_r m et it b l m[ix vt m[ix vn (j - 1)]] m[ix vd m[ix vn (j - 1)]]
  clone Sig with val msum = msum_r, goal msum_0, goal msum_1, val degs = degs_r, goal degs_0, goal degs_1, val cnt = cnt_r, goal cnt_0, goal cnt_1, val klt = klt_r, goal klt_0, goal klt_1, val fro = fro_r, goal fro_0, goal fro_1, val too = too_r, goal too_0, goal too_1, val asum = asum_r, goal asum_0, goal asum_1
end
module Inducesum
  use prelude.Prelude
  use export Sig
  use induce.Induce
  (* sum of the degrees of the vertices a .. z-1 with a new number below l *)
  let rec ghost msum_le (m: map int int) (vt vd it l a z: int)
    requires { forall v [ix vt v]. a <= v < z -> m[ix vt v] <= m[ix vd v] }
    ensures { 0 <= msum m vt vd it l a z <= degs m vt vd a z } variant { z - a }
  = if a < z then msum_le m vt vd it l a (z - 1)
  let ghost msum_no (m: map int int) (vt vd it l a z: int)
    requires { forall v. a <= v < z -> m[ix it v] <> l }
    ensures { msum m vt vd it (l + 1) a z = msum m vt vd it l a z }
  = for k = a to z - 1 do
      invariant { msum m vt vd it (l + 1) a k = msum m vt vd it l a k }
      assert { m[ix it k] <> l }
    done
  let rec ghost msum_0 (m: map int int) (vt vd it l a z: int)
    requires { forall v [m[ix it v]]. a <= v < z -> m[ix it v] = -1 \/ m[ix it v] >= l }
    ensures { msum m vt vd it l a z = 0 } variant { z - a }
  = if a < z then msum_0 m vt vd it l a (z - 1)
  let rec ghost msum_one (m: map int int) (vt vd it l w a z: int)
    requires { a <= w < z } requires { m[ix it w] = l } requires { l <> -1 }
    requires { forall v [m[ix it v]]. a <= v < z -> m[ix it v] = l -> v = w }
    ensures { msum m vt vd it (l + 1) a z = msum m vt vd it l a z + (m[ix vd w] - m[ix vt w]) } variant { z - a }
  = if w < z - 1 then msum_one m vt vd it l w a (z - 1) else msum_no m vt vd it l a (z - 1)
  (* a list without duplicates has at most all the arcs *)
  let rec ghost dsum_msum (m: map int int) (vt vd it vn b n g l: int)
    requires { b <= l <= b + n } requires { b >= 0 }
    requires { forall i [m[ix vn i]]. b <= i < b + n -> b <= m[ix vn i] < g /\ m[ix it m[ix vn i]] = i }
    requires { forall v [m[ix it v]]. b <= v < g -> m[ix it v] <> -1 -> b <= m[ix it v] < b + n /\ m[ix vn m[ix it v]] = v }
    ensures { dsum m vt vd vn b l = msum m vt vd it l b g } variant { l - b }
  = if b < l then (dsum_msum m vt vd it vn b n g (l - 1); msum_one m vt vd it (l - 1) m[ix vn (l - 1)] b g)
    else msum_0 m vt vd it b b g
  let rec ghost dsum_degr (m: map int int) (vt vd vn a z d: int)
    requires { forall k [ix vn k]. a <= k < z -> m[ix vd m[ix vn k]] - m[ix vt m[ix vn k]] <= d }
    requires { a <= z }
    ensures { dsum m vt vd vn a z <= (z - a) * d } variant { z - a }
  = if a < z then dsum_degr m vt vd vn a (z - 1) d
  let rec ghost dsum_frame (m1 m2: map int int) (vt vd vn a z: int)
    requires { forall k [ix vn k]. a <= k < z -> m1[ix vn k] = m2[ix vn k] /\ m1[ix vd m1[ix vn k]] = m2[ix vd m1[ix vn k]] /\ m1[ix vt m1[ix vn k]] = m2[ix vt m1[ix vn k]] }
    ensures { dsum m1 vt vd vn a z = dsum m2 vt vd vn a z } variant { z - a }
  = if a < z then dsum_frame m1 m2 vt vd vn a (z - 1)
  let rec ghost degs_frame (m1 m2: map int int) (vt vd a z: int)
    requires { forall v [ix vt v]. a <= v < z -> m1[ix vt v] = m2[ix vt v] /\ m1[ix vd v] = m2[ix vd v] }
    ensures { degs m1 vt vd a z = degs m2 vt vd a z } variant { z - a }
  = if a < z then degs_frame m1 m2 vt vd a (z - 1)

  (* handshakes: in a symmetric graph, the number of arcs between selected vertices is even *)
  function cvv (m: map int int) (vt vd et u w: int) : int = cnt m et m[ix vt u] m[ix vd u] w
  (* symmetry of the arcs between vertices b .. g-1 *)
  predicate symc (m: map int int) (vt vd et b g: int) =
    forall u w [cvv m vt vd et u w]. b <= u < g -> b <= w < g -> cvv m vt vd et u w = cvv m vt vd et w u /\ (u = w -> cvv m vt vd et u w = 0)
  predicate numbered (m: map int int) (vt vd et it vn b n g: int) =
    b >= 0 /\
    (forall i [m[ix vn i]]. b <= i < b + n -> b <= m[ix vn i] < g /\ m[ix it m[ix vn i]] = i) /\
    (forall v [m[ix it v]]. b <= v < g -> m[ix it v] <> -1 -> b <= m[ix it v] < b + n /\ m[ix vn m[ix it v]] = v) /\
    (forall v e [m[ix vt v], m[ix et e]]. b <= v < g -> m[ix vt v] <= e < m[ix vd v] -> b <= m[ix et e] < g)
  let rec ghost klt_0 (m: map int int) (et it b a z: int) ensures { klt m et it b b a z = 0 } variant { z - a }
  = if a < z then klt_0 m et it b a (z - 1)
  let rec ghost klt_S (m: map int int) (et it vn b n g l a z: int)
    requires { b <= l < b + n }
    requires { forall i [m[ix vn i]]. b <= i < b + n -> b <= m[ix vn i] < g /\ m[ix it m[ix vn i]] = i }
    requires { forall v [m[ix it v]]. b <= v < g -> m[ix it v] <> -1 -> b <= m[ix it v] < b + n /\ m[ix vn m[ix it v]] = v }
    requires { b >= 0 }
    requires { forall e [m[ix et e]]. a <= e < z -> b <= m[ix et e] < g }
    ensures { klt m et it b (l + 1) a z = klt m et it b l a z + cnt m et a z m[ix vn l] } variant { z - a }
  = if a < z then (klt_S m et it vn b n g l a (z - 1);
      assert { m[ix it m[ix et (z - 1)]] = l <-> m[ix et (z - 1)] = m[ix vn l] })
  let rec ghost klt_all (m: map int int) (et it vn b n g a z: int)
    requires { forall v [m[ix it v]]. b <= v < g -> m[ix it v] <> -1 -> b <= m[ix it v] < b + n }
    requires { b >= 0 }
    requires { forall e [m[ix et e]]. a <= e < z -> b <= m[ix et e] < g }
    ensures { klt m et it b (b + n) a z = kept m et it a z } variant { z - a }
  = if a < z then klt_all m et it vn b n g a (z - 1)
  (* arcs from vertex u to the selected vertices b .. j-1, and back *)
  let rec ghost fro_too (m: map int int) (vt vd et it vn b n g u j: int)
    requires { numbered m vt vd et it vn b n g } requires { symc m vt vd et b g } requires { b <= u < g } requires { b <= j <= b + n }
    ensures { fro m vt vd et vn u b j = too m vt vd et vn u b j } variant { j - b }
  = if b < j then (fro_too m vt vd et it vn b n g u (j - 1); assert { cvv m vt vd et u m[ix vn (j - 1)] = cvv m vt vd et m[ix vn (j - 1)] u })
  let rec ghost klt_fro (m: map int int) (vt vd et it vn b n g u j: int)
    requires { numbered m vt vd et it vn b n g } requires { b <= u < g } requires { b <= j <= b + n }
    ensures { klt m et it b j m[ix vt u] m[ix vd u] = fro m vt vd et vn u b j } variant { j - b }
  = if b < j then (klt_fro m vt vd et it vn b n g u (j - 1); klt_S m et it vn b n g (j - 1) m[ix vt u] m[ix vd u])
    else klt_0 m et it b m[ix vt u] m[ix vd u]
  let rec ghost asum_S (m: map int int) (vt vd et it vn b n g l j: int)
    requires { numbered m vt vd et it vn b n g } requires { b <= l < b + n } requires { b <= j <= b + n }
    ensures { asum m vt vd et it vn b (l + 1) j = asum m vt vd et it vn b l j + too m vt vd et vn m[ix vn l] b j } variant { j - b }
  = if b < j then (asum_S m vt vd et it vn b n g l (j - 1); klt_S m et it vn b n g l m[ix vt m[ix vn (j - 1)]] m[ix vd m[ix vn (j - 1)]])
  let rec ghost asum_even (m: map int int) (vt vd et it vn b n g l: int) : int
    requires { numbered m vt vd et it vn b n g } requires { symc m vt vd et b g } requires { b <= l <= b + n }
    ensures { asum m vt vd et it vn b l l = 2 * result } variant { l - b }
  = if b < l then (let r = asum_even m vt vd et it vn b n g (l - 1) in
      asum_S m vt vd et it vn b n g (l - 1) (l - 1);
      fro_too m vt vd et it vn b n g m[ix vn (l - 1)] (l - 1);
      klt_fro m vt vd et it vn b n g m[ix vn (l - 1)] (l - 1);
      klt_S m et it vn b n g (l - 1) m[ix vt m[ix vn (l - 1)]] m[ix vd m[ix vn (l - 1)]];
      assert { cvv m vt vd et m[ix vn (l - 1)] m[ix vn (l - 1)] = 0 };
      r + klt m et it b (l - 1) m[ix vt m[ix vn (l - 1)]] m[ix vd m[ix vn (l - 1)]])
    else 0
  let rec ghost asum_tot (m: map int int) (vt vd et it vn b n g j: int)
    requires { numbered m vt vd et it vn b n g } requires { b <= j <= b + n }
    ensures { asum m vt vd et it vn b (b + n) j = tot m vt vd et it vn b j } variant { j - b }
  = if b < j then (asum_tot m vt vd et it vn b n g (j - 1); klt_all m et it vn b n g m[ix vt m[ix vn (j - 1)]] m[ix vd m[ix vn (j - 1)]])
  let ghost tot_even (m: map int int) (vt vd et it vn b n g: int) : int
    requires { numbered m vt vd et it vn b n g } requires { symc m vt vd et b g } requires { n >= 0 }
    ensures { tot m vt vd et it vn b (b + n) = 2 * result }
  = asum_tot m vt vd et it vn b n g (b + n); asum_even m vt vd et it vn b n g (b + n)
  let rec ghost cnt_frame (m1 m2: map int int) (et a z w: int)
    requires { forall e [ix et e]. a <= e < z -> m1[ix et e] = m2[ix et e] }
    ensures { cnt m1 et a z w = cnt m2 et a z w } variant { z - a }
  = if a < z then cnt_frame m1 m2 et a (z - 1) w
  let rec ghost cnt_all (m1 m2: map int int) (et a z: int)
    requires { forall e [ix et e]. a <= e < z -> m1[ix et e] = m2[ix et e] }
    ensures { forall w [cnt m1 et a z w|cnt m2 et a z w]. cnt m1 et a z w = cnt m2 et a z w } variant { z - a }
  = if a < z then (cnt_all m1 m2 et a (z - 1); assert { forall w. cnt m1 et a z w = cnt m1 et a (z - 1) w + (if m1[ix et (z - 1)] = w then 1 else 0) /\ cnt m2 et a z w = cnt m2 et a (z - 1) w + (if m2[ix et (z - 1)] = w then 1 else 0) })
  let ghost symc_frame (m1 m2: map int int) (vt vd et b g: int)
    requires { symc m1 vt vd et b g }
    requires { forall v. b <= v < g -> m1[ix vt v] = m2[ix vt v] /\ m1[ix vd v] = m2[ix vd v] }
    requires { forall v e. b <= v < g -> m1[ix vt v] <= e < m1[ix vd v] -> m1[ix et e] = m2[ix et e] }
    ensures { symc m2 vt vd et b g }
  = for u = b to g - 1 do
      invariant { forall x w [cvv m2 vt vd et x w]. b <= x < u -> cvv m1 vt vd et x w = cvv m2 vt vd et x w }
      cnt_all m1 m2 et m1[ix vt u] m1[ix vd u];
      assert { forall w [cvv m2 vt vd et u w]. cvv m1 vt vd et u w = cvv m2 vt vd et u w }
    done;
    assert { forall x w [cvv m2 vt vd et x w]. b <= x < g -> cvv m1 vt vd et x w = cvv m2 vt vd et x w };
    assert { forall u w [cvv m2 vt vd et u w]. b <= u < g -> b <= w < g -> cvv m2 vt vd et u w = cvv m2 vt vd et w u /\ (u = w -> cvv m2 vt vd et u w = 0) }
end
