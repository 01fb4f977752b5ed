module Grid
  use prelude.Prelude
  (* c[k]: size of dimension k; a domain f is the box of the points x with f[2k] <= x_k <= f[2k+1] *)
  let rec ghost function prod (c: map int int) (k n: int) : int variant { n - k } = if n <= k then 1 else c[k] * prod c (k + 1) n
  (* mixed-radix value of the lower corner, plus t times the number of points *)
  let rec ghost function radt (c f: map int int) (k n t: int) : int variant { n - k }
  = if n <= k then t else f[i2 k 2 0] + c[k] * radt c f (k + 1) n t
  predicate inbox (c f: map int int) (n: int) = forall k [f[i2 k 2 0]]. 0 <= k < n -> 0 <= f[i2 k 2 0] <= f[i2 k 2 1] < c[k]
  predicate isterm (f: map int int) (n: int) = forall k [f[i2 k 2 0]]. 0 <= k < n -> f[i2 k 2 0] = f[i2 k 2 1]
  predicate dims (c: map int int) (n: int) = n >= 1 /\ forall k. 0 <= k < n -> c[k] >= 1
  predicate corner (c f: map int int) (n: int) = forall k [f[i2 k 2 0]]. 0 <= k < n -> 0 <= f[i2 k 2 0] < c[k]

  let ghost radt_u (c f: map int int) (k n t: int) : unit requires { k < n } ensures { radt c f k n t = f[i2 k 2 0] + c[k] * radt c f (k + 1) n t } = ()
  let ghost radt_z (c f: map int int) (k n t: int) : unit requires { k >= n } ensures { radt c f k n t = t } = ()
  let ghost prod_u (c: map int int) (k n: int) : unit requires { k < n } ensures { prod c k n = c[k] * prod c (k + 1) n } = ()
  let rec ghost radt_frame (c f g: map int int) (k n t: int) : unit
    requires { forall i. k <= i < n -> f[i2 i 2 0] = g[i2 i 2 0] } ensures { radt c f k n t = radt c g k n t } variant { n - k }
  = if k < n then (radt_frame c f g (k + 1) n t; radt_u c f k n t; radt_u c g k n t)
  let rec ghost radt_step (c f: map int int) (k n t: int) : unit
    requires { k <= n } ensures { radt c f k n (f[i2 n 2 0] + c[n] * t) = radt c f k (n + 1) t } variant { n - k }
  = let x = f[i2 n 2 0] + c[n] * t in
    if k < n then (radt_step c f (k + 1) n t; assert { radt c f (k + 1) n x = radt c f (k + 1) (n + 1) t }; radt_u c f k n x; radt_u c f k (n + 1) t; assert { c[k] * radt c f (k + 1) n x = c[k] * radt c f (k + 1) (n + 1) t }) else (radt_u c f k (n + 1) t; radt_z c f (k + 1) (n + 1) t; radt_z c f k n x)
  let rec ghost prod_pos (c: map int int) (k n: int) : unit
    requires { forall i. k <= i < n -> c[i] >= 1 } ensures { prod c k n >= 1 } variant { n - k }
  = if k < n then (prod_pos c (k + 1) n; mul_mono 1 (c[k]) (prod c (k + 1) n))
  let rec ghost prod_step (c: map int int) (k n: int) : unit
    requires { k <= n } ensures { prod c k (n + 1) = prod c k n * c[n] } variant { n - k }
  = if k < n then (prod_step c (k + 1) n; prod_u c k n; prod_u c k (n + 1); mul_assoc3 (c[k]) (prod c (k + 1) n) (c[n])) else (prod_u c n (n + 1); assert { prod c n n = 1 })
  let rec ghost radt_lin (c f: map int int) (k n t: int) : unit
    ensures { radt c f k n t = radt c f k n 0 + prod c k n * t } variant { n - k }
  = if k < n then (radt_lin c f (k + 1) n t; radt_u c f k n t; radt_u c f k n 0; prod_u c k n;
      assert { c[k] * radt c f (k + 1) n t = c[k] * radt c f (k + 1) n 0 + c[k] * (prod c (k + 1) n * t) };
      mul_assoc3 (c[k]) (prod c (k + 1) n) t)
  let rec ghost radt_range (c f: map int int) (k n: int) : unit
    requires { forall i. k <= i < n -> 0 <= f[i2 i 2 0] < c[i] }
    ensures { 0 <= radt c f k n 0 < prod c k n } variant { n - k }
  = if k < n then (radt_range c f (k + 1) n; radt_u c f k n 0; prod_u c k n;
      mul_mono 0 (radt c f (k + 1) n 0) (c[k]); mul_mono (radt c f (k + 1) n 0 + 1) (prod c (k + 1) n) (c[k]);
      assert { f[i2 k 2 0] < c[k] };
      assert { (radt c f (k + 1) n 0 + 1) * c[k] = c[k] * radt c f (k + 1) n 0 + c[k] })
  (* processor numbers are unique: same number, same coordinates *)
  let rec ghost radt_inj (c f g: map int int) (k n i: int) : unit
    requires { forall j. k <= j < n -> 0 <= f[i2 j 2 0] < c[j] } requires { forall j. k <= j < n -> 0 <= g[i2 j 2 0] < c[j] }
    requires { radt c f k n 0 = radt c g k n 0 } requires { k <= i < n }
    ensures { f[i2 i 2 0] = g[i2 i 2 0] } variant { n - k }
  = radt_range c f (k + 1) n; radt_range c g (k + 1) n; radt_u c f k n 0; radt_u c g k n 0;
    let a = radt c f (k + 1) n 0 in let b = radt c g (k + 1) n 0 in
    assert { 0 <= f[i2 k 2 0] < c[k] }; assert { 0 <= g[i2 k 2 0] < c[k] };
    assert { f[i2 k 2 0] + c[k] * a = g[i2 k 2 0] + c[k] * b };
    if a < b then (mul_mono (a + 1) b (c[k]); assert { (a + 1) * c[k] = c[k] * a + c[k] }; absurd)
    else if b < a then (mul_mono (b + 1) a (c[k]); assert { (b + 1) * c[k] = c[k] * b + c[k] }; absurd);
    assert { f[i2 k 2 0] = g[i2 k 2 0] };
    if i > k then radt_inj c f g (k + 1) n i
  (* number of points of a box *)
  let rec ghost function vol (f: map int int) (n: int) : int variant { n } = if n <= 0 then 1 else vol f (n - 1) * (f[i2 (n - 1) 2 1] - f[i2 (n - 1) 2 0] + 1)
  function abs (x: int) : int = if x >= 0 then x else - x
  function wrap (c d: int) : int = if 2 * d > c then c - d else d
  (* distance of the lower corners *)
  let rec ghost function manh (f g: map int int) (n: int) : int variant { n } = if n <= 0 then 0 else manh f g (n - 1) + abs (f[i2 (n - 1) 2 0] - g[i2 (n - 1) 2 0])
  let rec ghost function ring (c f g: map int int) (n: int) : int variant { n }
  = if n <= 0 then 0 else ring c f g (n - 1) + wrap (c[n - 1]) (abs (f[i2 (n - 1) 2 0] - g[i2 (n - 1) 2 0]))
  (* twice the distance of the centres *)
  let rec ghost function dsum (f g: map int int) (n: int) : int variant { n } = if n <= 0 then 0 else dsum f g (n - 1) + abs (f[i2 (n - 1) 2 0] + f[i2 (n - 1) 2 1] - g[i2 (n - 1) 2 0] - g[i2 (n - 1) 2 1])
  let rec ghost function rsum (c f g: map int int) (n: int) : int variant { n } = if n <= 0 then 0 else rsum c f g (n - 1) +
    (let d = abs (f[i2 (n - 1) 2 0] + f[i2 (n - 1) 2 1] - g[i2 (n - 1) 2 0] - g[i2 (n - 1) 2 1]) in if d > c[n - 1] then 2 * c[n - 1] - d else d)
  let rec ghost dsum_term (f g: map int int) (n: int) : unit requires { isterm f n /\ isterm g n } ensures { dsum f g n = 2 * manh f g n } variant { n }
  = if n > 0 then (dsum_term f g (n - 1); assert { f[i2 (n - 1) 2 0] = f[i2 (n - 1) 2 1] /\ g[i2 (n - 1) 2 0] = g[i2 (n - 1) 2 1] })
  let rec ghost rsum_term (c f g: map int int) (n: int) : unit requires { isterm f n /\ isterm g n } ensures { rsum c f g n = 2 * ring c f g n } variant { n }
  = if n > 0 then (rsum_term c f g (n - 1); assert { f[i2 (n - 1) 2 0] = f[i2 (n - 1) 2 1] /\ g[i2 (n - 1) 2 0] = g[i2 (n - 1) 2 1] })
  let ghost dsum_term0 (f g: map int int) (n: int) : unit ensures { isterm f n -> isterm g n -> dsum f g n = 2 * manh f g n }
  = if pure { isterm f n /\ isterm g n } then dsum_term f g n
  let ghost rsum_term0 (c f g: map int int) (n: int) : unit ensures { isterm f n -> isterm g n -> rsum c f g n = 2 * ring c f g n }
  = if pure { isterm f n /\ isterm g n } then rsum_term c f g n
  let ghost gdiv_gdiv (a b c: int) : unit requires { a >= 0 /\ b > 0 /\ c > 0 } ensures { gdiv a (b * c) = gdiv (gdiv a b) c }
  = let ghost q = gdiv a b in let ghost z = gdiv q c in
    mul_mono (c * z) q b; mul_mono (q + 1) (c * z + c) b; mul_mono 1 b c; assert { b * c > 0 };
    assert { (c * z) * b = (b * c) * z }; assert { (c * z + c) * b = (b * c) * z + b * c };
    gdiv_unique a (b * c) z
  let rec ghost manh_sym (f g: map int int) (n: int) : unit ensures { manh f g n = manh g f n >= 0 } variant { n } = if n > 0 then manh_sym f g (n - 1)
  let rec ghost ring_sym (c f g: map int int) (n: int) : unit ensures { ring c f g n = ring c g f n } variant { n } = if n > 0 then ring_sym c f g (n - 1)
  let rec ghost manh_tri (f g h: map int int) (n: int) : unit ensures { manh f h n <= manh f g n + manh g h n } variant { n } = if n > 0 then manh_tri f g h (n - 1)
  (* f is cut in two along dimension s *)
  predicate cut (f f0 f1: map int int) (n s: int) =
    0 <= s < n /\ f0[i2 s 2 0] = f[i2 s 2 0] /\ f1[i2 s 2 1] = f[i2 s 2 1] /\ f[i2 s 2 0] <= f0[i2 s 2 1] /\ f1[i2 s 2 0] = f0[i2 s 2 1] + 1 /\ f1[i2 s 2 0] <= f[i2 s 2 1] /\
    forall k [f[i2 k 2 0]]. 0 <= k < n -> k <> s -> f0[i2 k 2 0] = f[i2 k 2 0] /\ f1[i2 k 2 0] = f[i2 k 2 0] /\ f0[i2 k 2 1] = f[i2 k 2 1] /\ f1[i2 k 2 1] = f[i2 k 2 1]
  predicate cuts (f f0 f1: map int int) (n s: int)
  axiom cuts_def : forall f f0 f1 n s [cuts f f0 f1 n s]. cuts f f0 f1 n s <-> cut f f0 f1 n s
  predicate halves (f f0 f1: map int int) (n: int) = exists s. cuts f f0 f1 n s
  let rec ghost vol_frame (f g: map int int) (n: int) : unit requires { forall i. 0 <= i < n -> f[i2 i 2 0] = g[i2 i 2 0] /\ f[i2 i 2 1] = g[i2 i 2 1] } ensures { vol f n = vol g n } variant { n } = if n > 0 then vol_frame f g (n - 1)
  predicate inb (f x: map int int) (n: int) = forall k. 0 <= k < n -> f[i2 k 2 0] <= x[i2 k 2 0] <= f[i2 k 2 1]
  (* both halves together hold every point of the box exactly once *)
  let ghost halves_partition (f f0 f1 x: map int int) (n s: int) : unit
    requires { cut f f0 f1 n s }
    ensures { inb f x n <-> (inb f0 x n \/ inb f1 x n) } ensures { not (inb f0 x n /\ inb f1 x n) }
  = if x[i2 s 2 0] <= f0[i2 s 2 1] then (assert { inb f x n -> inb f0 x n }; assert { not (inb f1 x n) })
    else (assert { inb f x n -> inb f1 x n }; assert { not (inb f0 x n) });
    assert { inb f0 x n -> inb f x n }; assert { inb f1 x n -> inb f x n }
end
