module Ordtree
  use prelude.Prelude
  (* column block tree held in the field maps tv (type), vn (vertices), cn (sons), ct (son array); ht: height of a node in the
     finite tree, any function that decreases from node to son *)
  val function ht (p: int) : int
  function kid (ct: map int int) (p i: int) : int = ix ct[p] i
  predicate down (ct: map int int) (p i: int) = 0 <= ht (kid ct p i) < ht p
  predicate acyc (cn ct: map int int) = forall p i [ct[p], ix ct[p] i]. ct[p] <> 0 -> 0 <= i < cn[p] -> down ct p i

  (* vertices of the first n sons *)
  let rec ghost function vsum (vn ct: map int int) (p n: int) : int variant { n }
  = if n <= 0 then 0 else vsum vn ct p (n - 1) + vn[ix ct[p] (n - 1)]

  (* leaves below p, below its first n sons; nodes likewise *)
  let rec ghost function leaves (cn ct: map int int) (p: int) : int variant { ht p, 1, 0 }
  = if ct[p] = 0 then 1 else lsum cn ct p cn[p]
  with ghost function lsum (cn ct: map int int) (p n: int) : int variant { ht p, 0, n }
  = if n <= 0 then 0 else lsum cn ct p (n - 1) + (let c = ix ct[p] (n - 1) in if 0 <= ht c < ht p then leaves cn ct c else 0)
  let rec ghost function nodes (cn ct: map int int) (p: int) : int variant { ht p, 1, 0 }
  = if ct[p] = 0 then 1 else 1 + nsum cn ct p cn[p]
  with ghost function nsum (cn ct: map int int) (p n: int) : int variant { ht p, 0, n }
  = if n <= 0 then 0 else nsum cn ct p (n - 1) + (let c = ix ct[p] (n - 1) in if 0 <= ht c < ht p then nodes cn ct c else 0)

  (* valid block tree below p, below the first n sons of p *)
  let rec ghost predicate tok (tv vn cn ct: map int int) (p: int) variant { ht p, 1, 0 }
  = vn[p] >= 1 &&
    (if ct[p] = 0 then tv[p] = 8 && cn[p] = 0
     else (tv[p] = 1 || tv[p] = 2 || tv[p] = 4) && cn[p] > 0 && (tv[p] <> 1 || (2 <= cn[p] && cn[p] <= 3)) && vsum vn ct p cn[p] = vn[p] && toks tv vn cn ct p cn[p])
  with ghost predicate toks (tv vn cn ct: map int int) (p n: int) variant { ht p, 0, n }
  = if n <= 0 then true else toks tv vn cn ct p (n - 1) && (let c = ix ct[p] (n - 1) in if 0 <= ht c < ht p then tok tv vn cn ct c else true)

  let rec lemma toks_nth (tv vn cn ct: map int int) (p n i: int) : unit variant { n }
    requires { toks tv vn cn ct p n } requires { 0 <= i < n } requires { down ct p i }
    ensures { tok tv vn cn ct (kid ct p i) }
  = if i < n - 1 then toks_nth tv vn cn ct p (n - 1) i

  let rec ghost toks_pre (tv vn cn ct: map int int) (p n k: int) : unit variant { n }
    requires { toks tv vn cn ct p n } requires { 0 <= k <= n } ensures { toks tv vn cn ct p k }
  = if k < n then toks_pre tv vn cn ct p (n - 1) k

  let rec ghost vsum_mono (tv vn cn ct: map int int) (p n k: int) : unit variant { n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= k <= n <= cn[p] } requires { toks tv vn cn ct p n }
    ensures { vsum vn ct p k <= vsum vn ct p n }
  = if k < n then begin vsum_mono tv vn cn ct p (n - 1) k; assert { down ct p (n - 1) }; assert { tok tv vn cn ct (kid ct p (n - 1)) } end

  let rec ghost leaves_pos (tv vn cn ct: map int int) (p: int) : unit variant { ht p, 1, 0 }
    requires { acyc cn ct } requires { tok tv vn cn ct p } ensures { leaves cn ct p >= 1 }
  = if ct[p] <> 0 then lsum_pos tv vn cn ct p cn[p]
  with ghost lsum_pos (tv vn cn ct: map int int) (p n: int) : unit variant { ht p, 0, n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= n <= cn[p] } requires { toks tv vn cn ct p n } ensures { lsum cn ct p n >= n }
  = if n > 0 then begin assert { down ct p (n - 1) }; lsum_pos tv vn cn ct p (n - 1); leaves_pos tv vn cn ct (kid ct p (n - 1)) end

  let rec ghost lsum_mono (tv vn cn ct: map int int) (p n k: int) : unit variant { n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= k <= n <= cn[p] } requires { toks tv vn cn ct p n }
    ensures { lsum cn ct p k <= lsum cn ct p n }
  = if k < n then begin lsum_mono tv vn cn ct p (n - 1) k; assert { down ct p (n - 1) }; leaves_pos tv vn cn ct (kid ct p (n - 1)) end

  (* first vertex (relative) of leaf k below p *)
  let rec ghost function lstart (vn cn ct: map int int) (p k: int) : int variant { ht p, 1, 0 }
  = if ct[p] = 0 then 0 else lsts vn cn ct p cn[p] k
  with ghost function lsts (vn cn ct: map int int) (p n k: int) : int variant { ht p, 0, n }
  = if n <= 0 then 0
    else if k < lsum cn ct p (n - 1) then lsts vn cn ct p (n - 1) k
    else let c = ix ct[p] (n - 1) in if 0 <= ht c < ht p then vsum vn ct p (n - 1) + lstart vn cn ct c (k - lsum cn ct p (n - 1)) else 0

  (* the starts begin at 0, grow strictly and stay below the number of vertices *)
  let rec ghost lstart_mono (tv vn cn ct: map int int) (p k j: int) : unit variant { ht p, 1, 0 }
    requires { acyc cn ct } requires { tok tv vn cn ct p } requires { 0 <= k <= j < leaves cn ct p }
    ensures { 0 <= lstart vn cn ct p k <= lstart vn cn ct p j < vn[p] } ensures { k < j -> lstart vn cn ct p k < lstart vn cn ct p j }
    ensures { lstart vn cn ct p 0 = 0 }
  = if ct[p] <> 0 then lsts_mono tv vn cn ct p cn[p] k j
  with ghost lsts_mono (tv vn cn ct: map int int) (p n k j: int) : unit variant { ht p, 0, n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= n <= cn[p] } requires { toks tv vn cn ct p n } requires { 0 <= k <= j < lsum cn ct p n }
    ensures { 0 <= lsts vn cn ct p n k <= lsts vn cn ct p n j < vsum vn ct p n } ensures { k < j -> lsts vn cn ct p n k < lsts vn cn ct p n j }
    ensures { lsts vn cn ct p n 0 = 0 }
  = if n > 0 then begin
      let s = lsum cn ct p (n - 1) in
      assert { down ct p (n - 1) };
      assert { tok tv vn cn ct (kid ct p (n - 1)) };
      lsum_pos tv vn cn ct p (n - 1);
      vsum_mono tv vn cn ct p (n - 1) 0;
      assert { vsum vn ct p n = vsum vn ct p (n - 1) + vn[kid ct p (n - 1)] };
      assert { vn[kid ct p (n - 1)] >= 1 };
      assert { lsum cn ct p n = s + leaves cn ct (kid ct p (n - 1)) };
      assert { forall x [lsts vn cn ct p n x]. x < s -> lsts vn cn ct p n x = lsts vn cn ct p (n - 1) x };
      assert { forall x [lsts vn cn ct p n x]. x >= s -> lsts vn cn ct p n x = vsum vn ct p (n - 1) + lstart vn cn ct (kid ct p (n - 1)) (x - s) };
      if j < s then begin lsts_mono tv vn cn ct p (n - 1) k j; assert { 0 <= lsts vn cn ct p n k <= lsts vn cn ct p n j < vsum vn ct p n } end
      else if k >= s then begin
        lstart_mono tv vn cn ct (kid ct p (n - 1)) (k - s) (j - s);
        assert { 0 <= lsts vn cn ct p n k <= lsts vn cn ct p n j < vsum vn ct p n };
        if s > 0 then lsts_mono tv vn cn ct p (n - 1) 0 0
      end
      else begin
        lsts_mono tv vn cn ct p (n - 1) k k;
        lstart_mono tv vn cn ct (kid ct p (n - 1)) 0 (j - s);
        assert { lsts vn cn ct p (n - 1) k < vsum vn ct p (n - 1) };
        assert { 0 <= lsts vn cn ct p n k < lsts vn cn ct p n j };
        assert { lsts vn cn ct p n j < vsum vn ct p n }
      end
    end

  (* father block of leaf k below p, where b is the number of the first leaf of p and f the father of p *)
  function dfa (tv cn ct: map int int) (p i b f: int) : int =      (* father given to son i *)
    if tv[p] = 4 then (if i + 1 < cn[p] then b + lsum cn ct p (i + 2) - 1 else f)
    else if tv[p] = 1 && cn[p] = 3 && i < 2 then b + lsum cn ct p 3 - 1 else f
  let rec ghost function fath (tv cn ct: map int int) (p k b f: int) : int variant { ht p, 1, 0 }
  = if ct[p] = 0 then f else faths tv cn ct p cn[p] k b f
  with ghost function faths (tv cn ct: map int int) (p n k b f: int) : int variant { ht p, 0, n }
  = if n <= 0 then f
    else if k < lsum cn ct p (n - 1) then faths tv cn ct p (n - 1) k b f
    else let c = ix ct[p] (n - 1) in if 0 <= ht c < ht p then fath tv cn ct c (k - lsum cn ct p (n - 1)) (b + lsum cn ct p (n - 1)) (dfa tv cn ct p (n - 1) b f) else f

  (* a father is the one given from above or a strictly later leaf of the same tree *)
  let rec ghost fath_later (tv vn cn ct: map int int) (p k b f: int) : unit variant { ht p, 1, 0 }
    requires { acyc cn ct } requires { tok tv vn cn ct p } requires { 0 <= k < leaves cn ct p }
    ensures { fath tv cn ct p k b f = f \/ b + k < fath tv cn ct p k b f < b + leaves cn ct p }
  = if ct[p] <> 0 then faths_later tv vn cn ct p cn[p] k b f
  with ghost faths_later (tv vn cn ct: map int int) (p n k b f: int) : unit variant { ht p, 0, n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= n <= cn[p] } requires { tok tv vn cn ct p } requires { toks tv vn cn ct p n } requires { 0 <= k < lsum cn ct p n }
    ensures { faths tv cn ct p n k b f = f \/ b + k < faths tv cn ct p n k b f < b + leaves cn ct p }
  = if n > 0 then begin
      let s = lsum cn ct p (n - 1) in
      assert { down ct p (n - 1) };
      assert { tok tv vn cn ct (kid ct p (n - 1)) };
      if k < s then begin faths_later tv vn cn ct p (n - 1) k b f; assert { faths tv cn ct p n k b f = faths tv cn ct p (n - 1) k b f } end
      else begin
        fath_later tv vn cn ct (kid ct p (n - 1)) (k - s) (b + s) (dfa tv cn ct p (n - 1) b f);
        lsum_mono tv vn cn ct p cn[p] n;
        assert { lsum cn ct p n = s + leaves cn ct (kid ct p (n - 1)) };
        assert { faths tv cn ct p n k b f = fath tv cn ct (kid ct p (n - 1)) (k - s) (b + s) (dfa tv cn ct p (n - 1) b f) };
        assert { leaves cn ct p = lsum cn ct p cn[p] };
        if n < cn[p] then begin lsum_mono tv vn cn ct p cn[p] (n + 1); assert { down ct p n }; assert { tok tv vn cn ct (kid ct p n) }; leaves_pos tv vn cn ct (kid ct p n); assert { lsum cn ct p (n + 1) = lsum cn ct p n + leaves cn ct (kid ct p n) } end;
        if tv[p] = 1 && cn[p] = 3 && n < 3 then begin assert { down ct p 2 }; assert { tok tv vn cn ct (kid ct p 2) }; leaves_pos tv vn cn ct (kid ct p 2); lsum_mono tv vn cn ct p 2 n; assert { lsum cn ct p 3 = lsum cn ct p 2 + leaves cn ct (kid ct p 2) } end;
        let ghost d = dfa tv cn ct p (n - 1) b f in
        assert { d = f \/ (b + lsum cn ct p n <= d < b + leaves cn ct p) };
        let ghost g = faths tv cn ct p n k b f in
        assert { g = d \/ (b + k < g < b + s + leaves cn ct (kid ct p (n - 1))) };
        assert { g = f \/ b + k < g < b + leaves cn ct p }
      end
    end

  let rec ghost lsts_at (tv vn cn ct: map int int) (p n i: int) : unit variant { n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= i < n <= cn[p] } requires { toks tv vn cn ct p n }
    ensures { forall k [lsts vn cn ct p n k]. lsum cn ct p i <= k < lsum cn ct p (i + 1) -> lsts vn cn ct p n k = vsum vn ct p i + lstart vn cn ct (kid ct p i) (k - lsum cn ct p i) }
  = assert { down ct p (n - 1) }; if i < n - 1 then begin lsts_at tv vn cn ct p (n - 1) i; lsum_mono tv vn cn ct p (n - 1) (i + 1) end
  let rec ghost faths_at (tv vn cn ct: map int int) (p n i b f: int) : unit variant { n }
    requires { acyc cn ct } requires { ct[p] <> 0 } requires { 0 <= i < n <= cn[p] } requires { toks tv vn cn ct p n }
    ensures { forall k [faths tv cn ct p n k b f]. lsum cn ct p i <= k < lsum cn ct p (i + 1) -> faths tv cn ct p n k b f = fath tv cn ct (kid ct p i) (k - lsum cn ct p i) (b + lsum cn ct p i) (dfa tv cn ct p i b f) }
  = assert { down ct p (n - 1) }; if i < n - 1 then begin
      faths_at tv vn cn ct p (n - 1) i b f; lsum_mono tv vn cn ct p (n - 1) (i + 1);
      assert { forall k [faths tv cn ct p n k b f]. lsum cn ct p i <= k < lsum cn ct p (i + 1) -> faths tv cn ct p n k b f = faths tv cn ct p (n - 1) k b f } end
    else assert { forall k [faths tv cn ct p n k b f]. lsum cn ct p i <= k -> faths tv cn ct p n k b f = fath tv cn ct (kid ct p i) (k - lsum cn ct p i) (b + lsum cn ct p i) (dfa tv cn ct p i b f) }
  let ghost lstart_all (tv vn cn ct: map int int) (p: int) : unit
    requires { acyc cn ct } requires { tok tv vn cn ct p }
    ensures { lstart vn cn ct p 0 = 0 }
    ensures { forall x y. 0 <= x < y < leaves cn ct p -> lstart vn cn ct p x < lstart vn cn ct p y }
    ensures { forall x [lstart vn cn ct p x]. 0 <= x < leaves cn ct p -> 0 <= lstart vn cn ct p x < vn[p] }
  = leaves_pos tv vn cn ct p; lstart_mono tv vn cn ct p 0 0;
    for i = 0 to leaves cn ct p - 1 do
      invariant { forall x y. 0 <= x < y < leaves cn ct p -> x < i -> lstart vn cn ct p x < lstart vn cn ct p y }
      invariant { forall x [lstart vn cn ct p x]. 0 <= x < i -> 0 <= lstart vn cn ct p x < vn[p] }
      lstart_mono tv vn cn ct p i i;
      for j = i + 1 to leaves cn ct p - 1 do
        invariant { forall y. i < y < j -> lstart vn cn ct p i < lstart vn cn ct p y }
        lstart_mono tv vn cn ct p i j
      done
    done
  let ghost fath_all (tv vn cn ct: map int int) (p b f: int) : unit
    requires { acyc cn ct } requires { tok tv vn cn ct p }
    ensures { forall k [fath tv cn ct p k b f]. 0 <= k < leaves cn ct p -> fath tv cn ct p k b f = f \/ b + k < fath tv cn ct p k b f < b + leaves cn ct p }
  = leaves_pos tv vn cn ct p;
    for i = 0 to leaves cn ct p - 1 do
      invariant { forall k [fath tv cn ct p k b f]. 0 <= k < i -> fath tv cn ct p k b f = f \/ b + k < fath tv cn ct p k b f < b + leaves cn ct p }
      fath_later tv vn cn ct p i b f
    done
  predicate used (m: map int int) (p n v: int) = exists i. 0 <= i < n /\ m[ix p i] = v
end
