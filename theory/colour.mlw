module Colour
  use prelude.Prelude
  (* priority order of the vertices: random value, then number *)
  predicate klt (m: map int int) (rt u v: int) = m[ix rt u] < m[ix rt v] \/ (m[ix rt u] = m[ix rt v] /\ u < v)
  (* queue entry i: the queue is the identity in the first round *)
  function qv (m: map int int) (qt: int) (id: bool) (i: int) : int
  axiom qv_id : forall m qt i [qv m qt true i]. qv m qt true i = i
  axiom qv_qu : forall m qt i [qv m qt false i]. qv m qt false i = m[ix qt i]
  val ghost idm () : map int int ensures { forall i. result[i] = i }
  predicate usedc (m: map int int) (ct b n c: int) = exists v. b <= v < n /\ m[ix ct v] = c
  (* an arc of the coloured vertex v does not lead to a vertex of the same round unless that one has lower priority *)
  predicate aok (m: map int int) (et ct rt v e: int) =
    0 <= m[ix ct m[ix et e]] < m[ix ct v] \/ klt m rt m[ix et e] v
  (* index in [a, z) of the queue entry of highest priority *)
  let rec ghost qmax (m: map int int) (rt qt: int) (id: bool) (a z: int) : int variant { z - a }
    requires { a < z }
    ensures { a <= result < z }
    ensures { forall i [qv m qt id i]. a <= i < z -> qv m qt id i = qv m qt id result \/ klt m rt (qv m qt id i) (qv m qt id result) }
  = if z = a + 1 then a else
    let j = qmax m rt qt id a (z - 1) in
    let c = z - 1 in
    assert { forall i [qv m qt id i]. a <= i < z -> i = c \/ i < z - 1 };
    let vj = if id then j else m[ix qt j] in let vc = if id then c else m[ix qt c] in
    assert { vj = qv m qt id j /\ vc = qv m qt id c };
    assert { klt m rt vj vc \/ vj = vc \/ klt m rt vc vj };
    assert { klt m rt vj vc -> forall i [qv m qt id i]. a <= i < z - 1 -> klt m rt (qv m qt id i) vc };
    if m[ix rt vj] < m[ix rt vc] || (m[ix rt vj] = m[ix rt vc] && vj < vc) then c else j
  lemma usedc_st : forall m ct b n c a x [usedc (m[a <- x]) ct b n c]. usedc m ct b n c -> not (ix ct b <= a < ix ct n) -> usedc (m[a <- x]) ct b n c
end
