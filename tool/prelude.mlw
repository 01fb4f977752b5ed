module Prelude
  use export int.Int
  use export map.Map
  use export int.Abs
  use int.EuclideanDivision as E

  (* element address *)
  val function ix (p i: int) : int
  axiom ix_def : forall p i [ix p i]. ix p i = p + i
  (* offset of element (i, j) of a two-dimensional array with rows of s elements *)
  val function i2 (i s j: int) : int
  axiom i2_def : forall i s j [i2 i s j]. i2 i s j = i * s + j

  (* C integer division (truncation) over mathematical integers *)
  function qdiv (a b: int) : int = if a >= 0 then E.div a b else - (E.div (- a) b)
  function qmod (a b: int) : int = if a >= 0 then E.mod a b else - (E.mod (- a) b)
  val cdiv (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = qdiv a b }
  val cmod (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = qmod a b }
  (* division by a variable: Euclidean quotient and remainder, given by their defining property *)
  function gdiv (a b: int) : int
  axiom gdiv_def : forall a b [gdiv a b]. b > 0 -> b * gdiv a b <= a < b * gdiv a b + b
  axiom gdiv_pos : forall a b [gdiv a b]. b > 0 -> a >= 0 -> 0 <= gdiv a b <= a
  function gmod (a b: int) : int = a - b * gdiv a b
  function qgdiv (a b: int) : int = if a >= 0 then gdiv a b else - (gdiv (- a) b)
  val cdivg (a b: int) : int requires { [@expl:division by zero] b > 0 } ensures { result = qgdiv a b }
  val cmodg (a b: int) : int requires { [@expl:division by zero] b > 0 } ensures { result = a - b * qgdiv a b }
  let ghost mul_mono (a b c: int) : unit requires { a <= b } requires { c >= 0 } ensures { a * c <= b * c } = ()
  let ghost mul_assoc3 (a b c: int) : unit ensures { a * b * c = a * (b * c) } = ()
  let ghost gdiv_unique (a b q: int) : unit requires { b > 0 } requires { b * q <= a < b * q + b } ensures { gdiv a b = q }
  = assert { gdiv a b < q -> b * (gdiv a b + 1) <= b * q };
    assert { q < gdiv a b -> b * (q + 1) <= b * gdiv a b }
  let function cabs (a: int) : int ensures { result = if a >= 0 then a else - a } = if a >= 0 then a else - a

  function ediv (a b: int) : int = E.div a b
  function emod (a b: int) : int = E.mod a b
  (* arithmetic right shift by one: floor of half *)
  val function half (a: int) : int ensures { result = E.div a 2 }

  (* bitwise operators on two's complement integers, left uninterpreted but for these facts
     (each audited against 32-bit vectors by tool/audit_bits.smt2) *)
  val function bor (a b: int) : int
  val function bxor (a b: int) : int
  val function band (a b: int) : int
  axiom band_1 : forall a. band a 1 = E.mod a 2
  axiom bor_0 : forall a. bor a 0 = a
  axiom bor_1 : forall a. bor a 1 = a + 1 - E.mod a 2
  axiom bxor_1 : forall a. bxor a 1 = a + 1 - 2 * E.mod a 2
  axiom bxor_0 : forall a. bxor a 0 = a
  axiom bxor_self : forall a. bxor a a = 0
  axiom band_comm : forall a b. band a b = band b a
  axiom bor_comm : forall a b. bor a b = bor b a
  axiom bxor_comm : forall a b. bxor a b = bxor b a
  axiom bor_zero : forall a b. bor a b = 0 <-> (a = 0 /\ b = 0)
  axiom bor_bit : forall a b. 0 <= a <= 1 -> 0 <= b <= 1 -> bor a b = (if a = 1 || b = 1 then 1 else 0)
  axiom band_bit : forall a b. 0 <= a <= 1 -> 0 <= b <= 1 -> band a b = (if a = 1 && b = 1 then 1 else 0)
  axiom bxor_bit : forall a b. 0 <= a <= 1 -> 0 <= b <= 1 -> bxor a b = (if a = b then 0 else 1)
  axiom band_neg1 : forall a. band a (-1) = a
  axiom bxor_neg1 : forall a. bxor a (-1) = - a - 1
  axiom band_zero : forall a. band a 0 = 0

  val upd (m: map int int) (i v: int) : map int int ensures { result = m[i <- v] }

  predicate in_s32 (x: int) = -2147483648 <= x <= 2147483647
  predicate in_u32 (x: int) = 0 <= x <= 4294967295
  val add_s32 (a b: int) : int requires { [@expl:integer overflow] in_s32 (a + b) } ensures { result = a + b }
  val sub_s32 (a b: int) : int requires { [@expl:integer overflow] in_s32 (a - b) } ensures { result = a - b }
  val mul_s32 (a b: int) : int requires { [@expl:integer overflow] in_s32 (a * b) } ensures { result = a * b }
  val add_u32 (a b: int) : int ensures { result = E.mod (a + b) 4294967296 }
  val sub_u32 (a b: int) : int ensures { result = E.mod (a - b) 4294967296 }
  val mul_u32 (a b: int) : int ensures { result = E.mod (a * b) 4294967296 }
  val conv_s32 (a: int) : int requires { [@expl:lossless conversion] in_s32 a } ensures { result = a }
  val conv_u32 (a: int) : int ensures { result = E.mod a 4294967296 }
  val conv_u64 (a: int) : int requires { [@expl:lossless conversion] a >= 0 } ensures { result = a }
  val conv_s64 (a: int) : int requires { [@expl:lossless conversion] a <= 9223372036854775807 } ensures { result = a }
  val conv_u8 (a: int) : int ensures { result = E.mod a 256 }
  val conv_s8 (a: int) : int requires { [@expl:lossless conversion] -128 <= a <= 127 } ensures { result = a }
  val conv_s16 (a: int) : int requires { [@expl:lossless conversion] -32768 <= a <= 32767 } ensures { result = a }
  val conv_u16 (a: int) : int ensures { result = E.mod a 65536 }

  (* heap: addresses in [1, hp) may be in use, fresh blocks lie at or above hp *)
  val ref hp : int
  val alloc_cells (n: int) : int writes { hp }
    ensures { hp >= old hp }
    ensures { result <> 0 -> result >= old hp /\ result > 0 /\ hp >= result + n }
  val alloc_cells_ok (n: int) : int writes { hp }
    ensures { hp >= old hp }
    ensures { result >= old hp /\ result > 0 /\ hp >= result + n }

  (* number of four-byte cells rounded up to an eight-byte boundary *)
  val function pad2 (n: int) : int
  axiom pad2_def : forall n [pad2 n]. pad2 n = n + E.mod n 2

  (* byte image of a C int: injective *)
  function ipart (v k: int) : int
  axiom ipart_inj : forall a b. (ipart a 0 = ipart b 0 /\ ipart a 1 = ipart b 1 /\ ipart a 2 = ipart b 2 /\ ipart a 3 = ipart b 3) -> a = b
end

module Pow
  use Prelude
  use int.EuclideanDivision as E
  use int.Power as P
  val function pow2 (n: int) : int ensures { result = P.power 2 n }
  val shl (a n: int) : int requires { [@expl:shift count] n >= 0 } ensures { result = a * pow2 n }
  val shr (a n: int) : int requires { [@expl:shift count] n >= 0 } ensures { result = gdiv a (pow2 n) }
  lemma pow2_0 : pow2 0 = 1
  lemma pow2_1 : pow2 1 = 2
  lemma pow2_S : forall n. n >= 0 -> pow2 (n + 1) = 2 * pow2 n
  lemma pow2_pos : forall n. n >= 0 -> pow2 n > 0
  lemma pow2_P : forall n. n >= 1 -> pow2 n = 2 * pow2 (n - 1)
  val shl_s32 (a n: int) : int requires { [@expl:shift count] 0 <= n <= 31 } requires { [@expl:integer overflow] a >= 0 /\ in_s32 (a * pow2 n) } ensures { result = a * pow2 n }
  val shl_u32 (a n: int) : int requires { [@expl:shift count] 0 <= n <= 31 } ensures { result = E.mod (a * pow2 n) 4294967296 }
end
