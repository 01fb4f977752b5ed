module Tleaf
  use prelude.Prelude
  (* product of the arities of levels a .. b-1 *)
  let rec ghost function tprod (m: map int int) (p a b: int) : int
    variant { b - a }
  = if b <= a then 1 else tprod m p a (b - 1) * m[ix p (b - 1)]

  predicate sizes (m: map int int) (p n: int) = forall i [m[ix p i]]. 0 <= i < n -> m[ix p i] >= 1

  let rec ghost tprod_left (m: map int int) (p a b: int) : unit
    requires { a < b }
    ensures { tprod m p a b = m[ix p a] * tprod m p (a + 1) b }
    variant { b - a }
  = if a < b - 1 then begin tprod_left m p a (b - 1); mul_assoc3 m[ix p a] (tprod m p (a + 1) (b - 1)) m[ix p (b - 1)] end

  let rec ghost tprod_pos (m: map int int) (p a b n: int) : unit
    requires { sizes m p n } requires { 0 <= a } requires { b <= n }
    ensures { tprod m p a b >= 1 }
    variant { b - a }
  = if a < b then begin tprod_pos m p a (b - 1) n; assert { m[ix p (b - 1)] >= 1 }; mul_mono 1 m[ix p (b - 1)] (tprod m p a (b - 1)) end

  let ghost below (i s q r: int) : unit
    requires { r = s * q }
    ensures { i * s * q = i * r } ensures { (i * s + s) * q = (i + 1) * r }
  = ()

  let ghost eqmul (a b x y: int) : unit
    requires { a = b } requires { x = y }
    ensures { a * x = b * y }
  = ()

  let ghost divlt (x q s: int) : unit
    requires { s >= 1 } requires { 0 <= x < q * s }
    ensures { 0 <= gdiv x s < q }
  = assert { q <= gdiv x s -> q * s <= gdiv x s * s }

  (* index, at level t, of the ancestor of node x of level l *)
  let rec ghost function anc (m: map int int) (p x l t: int) : int
    variant { l - t }
  = if l <= t then x else anc m p (gdiv x m[ix p (l - 1)]) (l - 1) t

  let rec ghost anc_block (m: map int int) (p x l t n: int) : unit
    requires { sizes m p n } requires { 0 <= t } requires { l <= n } requires { x >= 0 }
    ensures { anc m p x l t * tprod m p t l <= x < (anc m p x l t + 1) * tprod m p t l }
    ensures { anc m p x l t >= 0 }
    variant { l - t }
  = if t < l then begin
      let s = m[ix p (l - 1)] in
      assert { s >= 1 };
      let y = gdiv x s in
      assert { s * y <= x < s * y + s };
      anc_block m p y (l - 1) t n;
      let a = anc m p y (l - 1) t in let q = tprod m p t (l - 1) in
      assert { a = anc m p x l t };
      assert { tprod m p t l = q * s };
      mul_mono (a * q) y s; mul_mono (y + 1) ((a + 1) * q) s;
      mul_assoc3 a q s; mul_assoc3 (a + 1) q s;
      assert { a * (q * s) <= y * s }; assert { (y + 1) * s <= (a + 1) * (q * s) }
    end

  (* sum of the link costs of levels a .. b-1 *)
  let rec ghost function links (m: map int int) (p a b: int) : int
    variant { b - a }
  = if b <= a then 0 else m[ix p a] + links m p (a + 1) b

  let rec ghost links_right (m: map int int) (p a b: int) : unit
    requires { a < b }
    ensures { links m p a b = links m p a (b - 1) + m[ix p (b - 1)] }
    variant { b - a }
  = if a < b - 1 then begin links_right m p (a + 1) b; assert { links m p a (b - 1) = m[ix p a] + links m p (a + 1) (b - 1) } end
    else assert { links m p (a + 1) b = 0 /\ links m p a (b - 1) = 0 }

  (* cost of climbing from two distinct nodes of level l to their lowest common ancestor *)
  let rec ghost function climb (s: map int int) (ps: int) (k: map int int) (pk x y l: int) : int
    variant { l }
  = if l <= 0 then 0 else k[ix pk (l - 1)] + (if gdiv x s[ix ps (l - 1)] = gdiv y s[ix ps (l - 1)] then 0 else climb s ps k pk (gdiv x s[ix ps (l - 1)]) (gdiv y s[ix ps (l - 1)]) (l - 1))

  let rec ghost climb_sym (s: map int int) (ps: int) (k: map int int) (pk x y l: int) : unit
    ensures { climb s ps k pk x y l = climb s ps k pk y x l }
    variant { l }
  = if l > 0 then climb_sym s ps k pk (gdiv x s[ix ps (l - 1)]) (gdiv y s[ix ps (l - 1)]) (l - 1)

  (* the climbing cost is the sum of the link costs below the lowest common ancestor, whose level is q *)
  let rec ghost climb_lca (s: map int int) (ps: int) (k: map int int) (pk x y l q n: int) : unit
    requires { 0 <= q < l } requires { anc s ps x l q = anc s ps y l q }
    requires { forall t. q < t <= l -> anc s ps x l t <> anc s ps y l t }
    ensures { climb s ps k pk x y l = links k pk q l }
    variant { l }
  = let a = gdiv x s[ix ps (l - 1)] in let b = gdiv y s[ix ps (l - 1)] in
    if q = l - 1 then begin
      assert { anc s ps x l q = anc s ps a (l - 1) q = a }; assert { anc s ps y l q = anc s ps b (l - 1) q = b };
      assert { links k pk l l = 0 }
    end else begin
      assert { forall t. q < t <= l - 1 -> anc s ps x l t = anc s ps a (l - 1) t };
      assert { forall t. q < t <= l - 1 -> anc s ps y l t = anc s ps b (l - 1) t };
      assert { anc s ps a (l - 1) (l - 1) = a }; assert { anc s ps b (l - 1) (l - 1) = b };
      assert { a <> b };
      climb_lca s ps k pk a b (l - 1) q n; links_right k pk q l
    end
end
