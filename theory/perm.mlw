module Perm
  use prelude.Prelude
  (* same entries with the same multiplicities: s re-indexes the n entries at p *)
  predicate reindex (m0 m1 s: map int int) (p n: int)
  axiom reindex_def : forall m0 m1 s p n [reindex m0 m1 s p n]. reindex m0 m1 s p n <->
    ((forall i [s[i]]. 0 <= i < n -> 0 <= s[i] < n /\ m1[ix p i] = m0[ix p s[i]])
    /\ (forall i j [s[i], s[j]]. 0 <= i < j < n -> s[i] <> s[j]))
  predicate rearranged (m0 m1: map int int) (p n: int)
  axiom rearranged_def : forall m0 m1 p n [rearranged m0 m1 p n]. rearranged m0 m1 p n <-> exists s. reindex m0 m1 s p n
  let ghost same (m0: map int int) (p n: int) : unit
    ensures { rearranged m0 m0 p n }
  = let s = pure { fun (i: int) -> i } in assert { reindex m0 m0 s p n }
  (* exchanging two entries rearranges *)
  let lemma swap (m0 m1: map int int) (p n a b: int) : unit
    requires { rearranged m0 m1 p n }
    requires { p <= a < p + n /\ p <= b < p + n }
    ensures { rearranged m0 m1[a <- m1[b]][b <- m1[a]] p n }
  = let ghost s : map int int = any (map int int) ensures { reindex m0 m1 result p n } in
    let t = pure { s[a - p <- s[b - p]][b - p <- s[a - p]] } in
    assert { reindex m0 m1[a <- m1[b]][b <- m1[a]] t p n }
end
