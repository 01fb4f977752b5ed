(* recursion over a range, given by the two equations that cannot loop in the solvers; module Real shows that they have a model *)
module Sig
  use prelude.Prelude
  val ghost function kept (m: map int int) (et it a z: int)  : int
  axiom kept_0 : forall m et it a z [kept m et it a z]. z <= a -> kept m et it a z = 0
  axiom kept_1 : forall m et it a z w_ [kept m et it a z, kept m et it a w_]. w_ = z - 1 -> a < z -> kept m et it a z = kept m et it a w_ + (if m[ix it m[ix et w_]] <> -1 then 1 else 0)
  val ghost function ksum (m: map int int) (et it lt a z: int)  : int
  axiom ksum_0 : forall m et it lt a z [ksum m et it lt a z]. z <= a -> ksum m et it lt a z = 0
  axiom ksum_1 : forall m et it lt a z w_ [ksum m et it lt a z, ksum m et it lt a w_]. w_ = z - 1 -> a < z -> ksum m et it lt a z = ksum m et it lt a w_ + (if m[ix it m[ix et w_]] <> -1 then m[ix lt w_] else 0)
  val ghost function tot (m: map int int) (vt vd et it vn a z: int)  : int
  axiom tot_0 : forall m vt vd et it vn a z [tot m vt vd et it vn a z]. z <= a -> tot m vt vd et it vn a z = 0
  axiom tot_1 : forall m vt vd et it vn a z w_ [tot m vt vd et it vn a z, tot m vt vd et it vn a w_]. w_ = z - 1 -> a < z -> tot m vt vd et it vn a z = tot m vt vd et it vn a w_ + kept m et it m[ix vt m[ix vn w_]] m[ix vd m[ix vn w_]]
  val ghost function tsum (m: map int int) (vt vd et it lt vn a z: int)  : int
  axiom tsum_0 : forall m vt vd et it lt vn a z [tsum m vt vd et it lt vn a z]. z <= a -> tsum m vt vd et it lt vn a z = 0
  axiom tsum_1 : forall m vt vd et it lt vn a z w_ [tsum m vt vd et it lt vn a z, tsum m vt vd et it lt vn a w_]. w_ = z - 1 -> a < z -> tsum m vt vd et it lt vn a z = tsum m vt vd et it lt vn a w_ + ksum m et it lt m[ix vt m[ix vn w_]] m[ix vd m[ix vn w_]]
  val ghost function vsum (m: map int int) (wt vn a z: int)  : int
  axiom vsum_0 : forall m wt vn a z [vsum m wt vn a z]. z <= a -> vsum m wt vn a z = 0
  axiom vsum_1 : forall m wt vn a z w_ [vsum m wt vn a z, vsum m wt vn a w_]. w_ = z - 1 -> a < z -> vsum m wt vn a z = vsum m wt vn a w_ + m[ix wt m[ix vn w_]]
  val ghost function dsum (m: map int int) (vt vd vn a z: int)  : int
  axiom dsum_0 : forall m vt vd vn a z [dsum m vt vd vn a z]. z <= a -> dsum m vt vd vn a z = 0
  axiom dsum_1 : forall m vt vd vn a z w_ [dsum m vt vd vn a z, dsum m vt vd vn a w_]. w_ = z - 1 -> a < z -> dsum m vt vd vn a z = dsum m vt vd vn a w_ + (m[ix vd m[ix vn w_]] - m[ix vt m[ix vn w_]])
  (* number of the vertices a .. z-1 whose part, in array pt, is q *)
  val ghost function pcnt (m: map int int) (pt q a z: int) : int
  axiom pcnt_0 : forall m pt q a z [pcnt m pt q a z]. z <= a -> pcnt m pt q a z = 0
  axiom pcnt_1 : forall m pt q a z w_ [pcnt m pt q a z, pcnt m pt q a w_]. w_ = z - 1 -> a < z -> pcnt m pt q a z = pcnt m pt q a w_ + (if m[ix pt w_] = q then 1 else 0)
end
module Real
  use prelude.Prelude
  let rec ghost function kept_r (m: map int int) (et it a z: int) : int variant { z - a }
  = if z <= a then 0 else kept_r m et it a (z - 1) + (if m[ix it m[ix et (z - 1)]] <> -1 then 1 else 0)
  let rec ghost function ksum_r (m: map int int) (et it lt a z: int) : int variant { z - a }
  = if z <= a then 0 else ksum_r m et it lt a (z - 1) + (if m[ix it m[ix et (z - 1)]] <> -1 then m[ix lt (z - 1)] else 0)
  let rec ghost function tot_r (m: map int int) (vt vd et it vn a z: int) : int variant { z - a }
  = if z <= a then 0 else tot_r m vt vd et it vn a (z - 1) + kept_r m et it m[ix vt m[ix vn (z - 1)]] m[ix vd m[ix vn (z - 1)]]
  let rec ghost function tsum_r (m: map int int) (vt vd et it lt vn a z: int) : int variant { z - a }
  = if z <= a then 0 else tsum_r m vt vd et it lt vn a (z - 1) + ksum_r m et it lt m[ix vt m[ix vn (z - 1)]] m[ix vd m[ix vn (z - 1)]]
  let rec ghost function vsum_r (m: map int int) (wt vn a z: int) : int variant { z - a }
  = if z <= a then 0 else vsum_r m wt vn a (z - 1) + m[ix wt m[ix vn (z - 1)]]
  let rec ghost function dsum_r (m: map int int) (vt vd vn a z: int) : int variant { z - a }
  = if z <= a then 0 else dsum_r m vt vd vn a (z - 1) + (m[ix vd m[ix vn (z - 1)]] - m[ix vt m[ix vn (z - 1)]])
  let rec ghost function pcnt_r (m: map int int) (pt q a z: int) : int variant { z - a }
  = if z <= a then 0 else pcnt_r m pt q a (z - 1) + (if m[ix pt (z - 1)] = q then 1 else 0)
  clone Sig with val kept = kept_r, goal kept_0, goal kept_1, val ksum = ksum_r, goal ksum_0, goal ksum_1, val tot = tot_r, goal tot_0, goal tot_1, val tsum = tsum_r, goal tsum_0, goal tsum_1, val vsum = vsum_r, goal vsum_0, goal vsum_1, val dsum = dsum_r, goal dsum_0, goal dsum_1, val pcnt = pcnt_r, goal pcnt_0, goal pcnt_1
end
module Induce
  use prelude.Prelude
  use export Sig
  (* memory m; based arrays vt, vd (arc ranges), et (arc ends), lt (arc loads), it (new number of every vertex, or -1), vn (selected vertices, from index b on) *)
  predicate keep (m: map int int) (et it e: int) = m[ix it m[ix et e]] <> -1
  (* number and load of the kept arcs among a .. z-1 *)
  (* number and load of the kept arcs of the selected vertices a .. z-1; load of these vertices *)
  (* sum of the degrees of the selected vertices *)
  (* index in the induced graph of arc e of selected vertex k *)
  function slot (m: map int int) (vt vd et it vn b k e: int) : int
  axiom slot_def : forall m vt vd et it vn b k e [slot m vt vd et it vn b k e].
    slot m vt vd et it vn b k e = b + tot m vt vd et it vn b k + kept m et it m[ix vt m[ix vn k]] e

  let rec lemma kept_bnd (m: map int int) (et it a z: int)
    requires { a <= z } ensures { 0 <= kept m et it a z <= z - a } variant { z - a }
  = if a < z then kept_bnd m et it a (z - 1)
  let rec lemma kept_mono (m: map int int) (et it a c z: int)
    requires { a <= c <= z } ensures { kept m et it a c <= kept m et it a z }
    ensures { c < z -> keep m et it c -> kept m et it a c < kept m et it a z } variant { z - c }
  = if c < z then (kept_mono m et it a (c + 1) z)
  let rec lemma tot_pos (m: map int int) (vt vd et it vn a z: int)
    requires { forall k [ix vn k]. a <= k < z -> m[ix vt m[ix vn k]] <= m[ix vd m[ix vn k]] }
    ensures { 0 <= tot m vt vd et it vn a z <= dsum m vt vd vn a z } variant { z - a }
  = if a < z then (tot_pos m vt vd et it vn a (z - 1); kept_bnd m et it m[ix vt m[ix vn (z - 1)]] m[ix vd m[ix vn (z - 1)]])
  let rec lemma tot_mono (m: map int int) (vt vd et it vn a c z: int)
    requires { a <= c <= z } requires { forall k [ix vn k]. a <= k < z -> m[ix vt m[ix vn k]] <= m[ix vd m[ix vn k]] }
    ensures { tot m vt vd et it vn a c <= tot m vt vd et it vn a z } variant { z - c }
  = if c < z then (tot_mono m vt vd et it vn a c (z - 1); kept_bnd m et it m[ix vt m[ix vn (z - 1)]] m[ix vd m[ix vn (z - 1)]])
  let ghost slot_lt (m: map int int) (vt vd et it vn b z: int) : unit
    requires { forall k [ix vn k]. b <= k < z -> m[ix vt m[ix vn k]] <= m[ix vd m[ix vn k]] }
    ensures { forall k e [slot m vt vd et it vn b k e]. b <= k < z -> m[ix vt m[ix vn k]] <= e < m[ix vd m[ix vn k]] -> keep m et it e -> b <= slot m vt vd et it vn b k e < b + tot m vt vd et it vn b (k + 1) }
    ensures { forall k e c [slot m vt vd et it vn b k e, tot m vt vd et it vn b c]. b <= k < c <= z -> m[ix vt m[ix vn k]] <= e < m[ix vd m[ix vn k]] -> keep m et it e -> slot m vt vd et it vn b k e < b + tot m vt vd et it vn b c }
    ensures { forall c [tot m vt vd et it vn b c]. b <= c <= z -> 0 <= tot m vt vd et it vn b c <= tot m vt vd et it vn b z }
  = assert { forall k e. b <= k < z -> m[ix vt m[ix vn k]] <= e < m[ix vd m[ix vn k]] -> keep m et it e -> b <= slot m vt vd et it vn b k e < b + tot m vt vd et it vn b (k + 1) };
    ()
  (* every induced arc index is that of some kept arc *)
  predicate kidx (m: map int int) (et it a z r: int) = exists e. a <= e < z /\ keep m et it e /\ kept m et it a e = r
  let rec lemma kept_onto (m: map int int) (et it a z r: int)
    requires { 0 <= r < kept m et it a z } ensures { kidx m et it a z r } variant { z - a }
  = if a < z then (if r < kept m et it a (z - 1) then kept_onto m et it a (z - 1) r else assert { keep m et it (z - 1) })
  (* array s of memory g lists, from index b on, the n cells of array t of memory m *)
  predicate listed (g: map int int) (s: int) (m: map int int) (t b n: int)
  axiom listed_def : forall g s m t b n [listed g s m t b n].
    listed g s m t b n <-> (forall k [g[ix s k]]. b <= k < b + n -> g[ix s k] = m[ix t (k - b)])
  (* memory in which the selection was numbered, and its number array (ghost results) *)
  val ghost ref gmem : map int int
  val ghost ref gidx : int
  val ghost ref gsel : int
  let rec ghost pcnt_mono (m: map int int) (pt q a z g: int)
    requires { a <= z <= g } ensures { 0 <= pcnt m pt q a z <= pcnt m pt q a g } variant { g - a }
  = if z < g then pcnt_mono m pt q a z (g - 1) else if a < g then pcnt_mono m pt q a (g - 1) (g - 1)
end
