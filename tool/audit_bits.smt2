; audit of the bit axioms of prelude.mlw against 32-bit vectors in two's complement: z3 answers unsat (no counterexample)
(define-fun m ((a (_ BitVec 32))) (_ BitVec 32) (bvand a #x00000001)) ; Euclidean remainder by 2, whatever the sign
(declare-const a (_ BitVec 32)) (declare-const b (_ BitVec 32))
(define-fun bit ((x (_ BitVec 32))) Bool (or (= x #x00000000) (= x #x00000001)))
(assert (not (and
 (=> (bvsge b #x00000000) (and (bvsge (bvand a b) #x00000000) (bvsle (bvand a b) b)))
 (= (bvand a #x00000001) (m a))
 (= (bvor a #x00000000) a)
 (= (bvor a #x00000001) (bvsub (bvadd a #x00000001) (m a)))
 (= (bvxor a #x00000001) (bvsub (bvadd a #x00000001) (bvmul #x00000002 (m a))))
 (= (bvxor a #x00000000) a) (= (bvxor a a) #x00000000)
 (= (bvand a b) (bvand b a)) (= (bvor a b) (bvor b a)) (= (bvxor a b) (bvxor b a))
 (= (= (bvor a b) #x00000000) (and (= a #x00000000) (= b #x00000000)))
 (=> (and (bit a) (bit b)) (= (bvor a b) (ite (or (= a #x00000001) (= b #x00000001)) #x00000001 #x00000000)))
 (=> (and (bit a) (bit b)) (= (bvand a b) (ite (and (= a #x00000001) (= b #x00000001)) #x00000001 #x00000000)))
 (=> (and (bit a) (bit b)) (= (bvxor a b) (ite (= a b) #x00000000 #x00000001)))
 (= (bvand a #xffffffff) a) (= (bvxor a #xffffffff) (bvsub (bvneg a) #x00000001)) (= (bvand a #x00000000) #x00000000))))
(check-sat)
