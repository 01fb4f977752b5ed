module Gcdz
  use prelude.Prelude
  use number.Gcd
  use int.EuclideanDivision as E
  (* greatest common divisor of the standard library; gcdz keeps its theory away from other goals *)
  function gcdz (a b: int) : int
  axiom gcdz_def : forall a b. gcdz a b = gcd a b
  lemma gcd_step0 : forall u v q. gcd v (u - v * q) = gcd u v
  lemma gcd_step : forall u v q [gcdz v (u - v * q)]. gcdz v (u - v * q) = gcdz u v
  lemma gcd_sym : forall u v. gcdz u v = gcdz v u
  lemma gcd_end : forall u. u >= 0 -> gcdz u 0 = u
end
