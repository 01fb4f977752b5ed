module Chars
  use prelude.Prelude
  predicate isdig (c: int) = 48 <= c <= 57
  predicate isspc (c: int) = c = 32 \/ 9 <= c <= 13
  (* value of the digits at d .. q-1 *)
  let rec ghost function dval (t: map int int) (d q: int) : int
    variant { q - d }
  = if q <= d then 0 else dval t d (q - 1) * 10 + (t[q - 1] - 48)
  (* white space from p to s, a sign maybe, digits from d to q *)
  predicate numat (t: map int int) (p s d q v: int) =
    p <= s /\ (forall i [t[i]]. p <= i < s -> isspc t[i]) /\ not (isspc t[s]) /\
    (d = s \/ (d = s + 1 /\ (t[s] = 45 \/ t[s] = 43))) /\
    d < q /\ (forall i [t[i]]. d <= i < q -> isdig t[i]) /\ not (isdig t[q]) /\
    v = (if t[s] = 45 then - (dval t d q) else dval t d q)
  predicate number (t: map int int) (p q v: int) = exists s d. numat t p s d q v
  let ghost number_det (t: map int int) (p q1 v1 q2 v2: int) : unit
    requires { number t p q1 v1 }
    requires { number t p q2 v2 }
    ensures { q1 = q2 /\ v1 = v2 }
  = assert { forall s1 d1 s2 d2. numat t p s1 d1 q1 v1 -> numat t p s2 d2 q2 v2 -> s1 = s2 by (s1 < s2 -> isspc t[s1]) /\ (s2 < s1 -> isspc t[s2]) };
    assert { forall s1 d1 s2 d2. numat t p s1 d1 q1 v1 -> numat t p s2 d2 q2 v2 -> d1 = d2 by s1 = s2 /\ isdig t[d1] /\ isdig t[d2] };
    assert { forall s1 d1 s2 d2. numat t p s1 d1 q1 v1 -> numat t p s2 d2 q2 v2 -> q1 = q2 by d1 = d2 /\ (q1 < q2 -> isdig t[q1]) /\ (q2 < q1 -> isdig t[q2]) }
  (* the number read at p and the place just after it: well defined by number_det *)
  function next (t: map int int) (p: int) : int
  function value (t: map int int) (p: int) : int
  axiom number_fun : forall t p q v [number t p q v]. number t p q v -> next t p = q /\ value t p = v
  (* place reached after k numbers *)
  function cpos (t: map int int) (p k: int) : int
  axiom cpos_0 : forall t p. cpos t p 0 = p
  axiom cpos_S : forall t p k. k >= 0 -> cpos t p (k + 1) = next t (cpos t p k)
  (* the numbers of a text, in order *)
  function toks (t: map int int) (p: int) : map int int
  axiom toks_def : forall t p k [(toks t p)[k]]. k >= 0 -> (toks t p)[k] = value t (cpos t p k)
end
