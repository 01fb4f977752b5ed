module Files
  use prelude.Prelude
  (* number of items a vertex takes before its arcs, and number of items k arcs take *)
  function wv (lb vl: int) : int = (if lb <> 0 then 1 else 0) + (if vl <> 0 then 1 else 0) + 1
  function ek (el k: int) : int = if el <> 0 then 2 * k else k
  (* rank of the first item of vertex v in the file of a graph whose first vertex b starts at item p *)
  let rec ghost function tp (m: map int int) (vt vd lb vl el b p v: int) : int
    variant { v - b }
  = if v <= b then p else tp m vt vd lb vl el b p (v - 1) + wv lb vl + ek el (m[ix vd (v - 1)] - m[ix vt (v - 1)])
  let rec ghost tp_mono (m: map int int) (vt vd lb vl el b p u v: int) : unit
    requires { b <= u < v }
    requires { forall i. b <= i < v -> m[ix vt i] <= m[ix vd i] }
    ensures { tp m vt vd lb vl el b p u + wv lb vl + ek el (m[ix vd u] - m[ix vt u]) <= tp m vt vd lb vl el b p v }
    variant { v - u }
  = if u < v - 1 then tp_mono m vt vd lb vl el b p u (v - 1)
  let rec ghost tp_frame (m1 m2: map int int) (vt vd lb vl el b p v: int) : unit
    requires { forall i. b <= i < v -> m1[ix vt i] = m2[ix vt i] /\ m1[ix vd i] = m2[ix vd i] }
    ensures { tp m1 vt vd lb vl el b p v = tp m2 vt vd lb vl el b p v }
    variant { v - b }
  = if b < v then tp_frame m1 m2 vt vd lb vl el b p (v - 1)
  (* the items of the arcs of vertex v, from its first arc up to arc z, starting at item q *)
  predicate layarc (t: map int int) (m: map int int) (et el lb q a z: int) =
    forall e [m[ix et e]]. a <= e < z -> (el <> 0 -> t[q + 2 * (e - a)] = m[ix el e]) /\
      t[q + ek el (e - a) + (if el <> 0 then 1 else 0)] = (if lb <> 0 then m[ix lb (m[ix et e])] else m[ix et e])
  predicate layhead (t: map int int) (m: map int int) (vt vd lb vl q v: int) =
    (lb <> 0 -> t[q] = m[ix lb v]) /\ (vl <> 0 -> t[q + (if lb <> 0 then 1 else 0)] = m[ix vl v]) /\
    t[q + wv lb vl - 1] = m[ix vd v] - m[ix vt v]
  (* the file holds the vertices b .. n-1 *)
  predicate lay (t: map int int) (m: map int int) (vt vd et el lb vl b n p: int) =
    forall v [m[ix vt v]]. b <= v < n ->
      layhead t m vt vd lb vl (tp m vt vd lb vl el b p v) v /\
      layarc t m et el lb (tp m vt vd lb vl el b p v + wv lb vl) m[ix vt v] m[ix vd v]
  lemma layarc_frame : forall t1 t2 m et el lb q a z. a <= z -> layarc t1 m et el lb q a z -> (forall i. q <= i < q + ek el (z - a) -> t2[i] = t1[i]) -> layarc t2 m et el lb q a z
  lemma layhead_frame : forall t1 t2 m vt vd lb vl q v. layhead t1 m vt vd lb vl q v -> (forall i. q <= i < q + wv lb vl -> t2[i] = t1[i]) -> layhead t2 m vt vd lb vl q v
  let ghost lay_frame (t1 t2 m: map int int) (vt vd et el lb vl b n p: int) : unit
    requires { lay t1 m vt vd et el lb vl b n p }
    requires { forall i. b <= i < n -> m[ix vt i] <= m[ix vd i] }
    requires { forall i. i < tp m vt vd lb vl el b p n -> t2[i] = t1[i] }
    ensures { lay t2 m vt vd et el lb vl b n p }
  = let lemma mono (v: int)
      requires { b <= v < n }
      ensures { tp m vt vd lb vl el b p v + wv lb vl + ek el (m[ix vd v] - m[ix vt v]) <= tp m vt vd lb vl el b p n }
    = tp_mono m vt vd lb vl el b p v n in
    ()
  let ghost lay_step (t m: map int int) (vt vd et el lb vl b n p: int) : unit
    requires { b <= n }
    requires { lay t m vt vd et el lb vl b n p }
    requires { layhead t m vt vd lb vl (tp m vt vd lb vl el b p n) n }
    requires { layarc t m et el lb (tp m vt vd lb vl el b p n + wv lb vl) m[ix vt n] m[ix vd n] }
    ensures { lay t m vt vd et el lb vl b (n + 1) p }
  = assert { forall v [m[ix vt v]]. b <= v < n -> layhead t m vt vd lb vl (tp m vt vd lb vl el b p v) v };
    assert { forall v [m[ix vt v]]. b <= v < n + 1 -> layhead t m vt vd lb vl (tp m vt vd lb vl el b p v) v by v < n \/ v = n };
    let lemma arcs (v: int)
      requires { b <= v < n + 1 }
      ensures { layarc t m et el lb (tp m vt vd lb vl el b p v + wv lb vl) m[ix vt v] m[ix vd v] }
    = if v < n then assert { layarc t m et el lb (tp m vt vd lb vl el b p v + wv lb vl) m[ix vt v] m[ix vd v] } else assert { v = n } in
    ()

  (* items taken by the heads of k vertices *)
  function wk (fl fv k: int) : int = k + (if fl <> 0 then k else 0) + (if fv <> 0 then k else 0)
  (* pv: item rank of vertex v, or of an arc of vertex v - 1, in a text whose items start at k: a name for p + wk (v - b) + ek (a - b), opened explicitly *)
  function pv (fl fv fe k b v a: int) : int
  predicate pvo (fl fv fe k b v a: int)
  axiom pv_def : forall fl fv fe k b v a [pvo fl fv fe k b v a]. pvo fl fv fe k b v a /\ pv fl fv fe k b v a = k + 5 + wk fl fv (v - b) + ek fe (a - b)
  let ghost pv_open (fl fv fe k b v a: int) : unit
    ensures { pv fl fv fe k b v a = k + 5 + wk fl fv (v - b) + ek fe (a - b) }
  = assert { pvo fl fv fe k b v a }
  (* a graph loaded with nothing left out has, vertex by vertex, the degrees and the item ranks of the one saved:
     vertex v of the loaded graph, whose arcs are numbered from b in the order of the vertices, starts at item p + wk (v - b) + ek (first arc - b) *)
  let rec ghost same_rank (t m1 m2: map int int) (vt1 vd1 et1 el1 lb1 vl1 vt2 b1 b2 n p v: int) : unit
    requires { lay t m1 vt1 vd1 et1 el1 lb1 vl1 b1 (b1 + n) p }
    requires { m2[ix vt2 b2] = b2 }
    requires { forall u [m2[ix vt2 u]]. b2 <= u < b2 + n -> t[pv lb1 vl1 el1 (p - 5) b2 u m2[ix vt2 u] + wv lb1 vl1 - 1] = m2[ix vt2 (u + 1)] - m2[ix vt2 u] }
    requires { 0 <= v <= n }
    ensures { p + wk lb1 vl1 v + ek el1 (m2[ix vt2 (b2 + v)] - b2) = tp m1 vt1 vd1 lb1 vl1 el1 b1 p (b1 + v) }
    ensures { v < n -> m2[ix vt2 (b2 + v + 1)] - m2[ix vt2 (b2 + v)] = m1[ix vd1 (b1 + v)] - m1[ix vt1 (b1 + v)] }
    variant { v }
  = if v > 0 then same_rank t m1 m2 vt1 vd1 et1 el1 lb1 vl1 vt2 b1 b2 n p (v - 1);
    assert { v < n -> layhead t m1 vt1 vd1 lb1 vl1 (tp m1 vt1 vd1 lb1 vl1 el1 b1 p (b1 + v)) (b1 + v) by m1[ix vt1 (b1 + v)] = m1[ix vt1 (b1 + v)] };
    pv_open lb1 vl1 el1 (p - 5) b2 (b2 + v) m2[ix vt2 (b2 + v)];
    assert { v < n -> t[p + wk lb1 vl1 (b2 + v - b2) + ek el1 (m2[ix vt2 (b2 + v)] - b2) + wv lb1 vl1 - 1] = m2[ix vt2 (b2 + v + 1)] - m2[ix vt2 (b2 + v)] }
  (* rank of the line of vertex v, in a file of lines of two numbers that starts at rank k with a count *)
  function row (k b v: int) : int
  axiom row_def : forall k b v [row k b v]. row k b v = k + 1 + 2 * (v - b)
end
