module Sums
  use prelude.Prelude

  predicate has (m: map int int) (p n v: int) = exists i. 0 <= i < n /\ m[ix p i] = v

  (* sum of m[ix p i] for a <= i < b *)
  let rec ghost function psum (m: map int int) (p a b: int) : int
    variant { b - a }
  = if b <= a then 0 else psum m p a (b - 1) + m[ix p (b - 1)]

  let rec lemma psum_left (m: map int int) (p a b: int)
    requires { a < b }
    ensures { psum m p a b = m[ix p a] + psum m p (a + 1) b }
    variant { b - a }
  = if a < b - 1 then psum_left m p a (b - 1)

  let rec lemma psum_split (m: map int int) (p a c b: int)
    requires { a <= c <= b }
    ensures { psum m p a b = psum m p a c + psum m p c b }
    variant { b - c }
  = if c < b then psum_split m p a c (b - 1)

  let rec lemma psum_frame (m1 m2: map int int) (p a b: int)
    requires { forall i. a <= i < b -> m1[ix p i] = m2[ix p i] }
    ensures { psum m1 p a b = psum m2 p a b }
    variant { b - a }
  = if a < b then psum_frame m1 m2 p a (b - 1)

  let rec lemma psum_shift (m1 m2: map int int) (p q a b d: int)
    requires { forall i. a <= i < b -> m1[ix p i] = m2[ix q (i + d)] }
    ensures { psum m1 p a b = psum m2 q (a + d) (b + d) }
    variant { b - a }
  = if a < b then psum_shift m1 m2 p q a (b - 1) d

  let rec lemma psum_pos (m: map int int) (p a b: int)
    requires { forall i. a <= i < b -> m[ix p i] >= 0 }
    ensures { psum m p a b >= 0 }
    variant { b - a }
  = if a < b then psum_pos m p a (b - 1)
end
