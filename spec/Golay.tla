------------------------------- MODULE Golay -------------------------------
(* The (23,12) binary Golay code used by every Horus Binary frame: a code     *)
(* word is 12 data bits followed by 11 parity bits such that the word, read   *)
(* as a polynomial over GF(2), is a multiple of the generator 0xC75.          *)
(* All words are plain integers below 2^23 (data in bits 22..11).             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bitwise, TLC

Poly == 3189                       \* 0xC75 = x^11+x^10+x^6+x^5+x^4+x^2+1
Pow2 == [i \in 0..30 |-> 2^i]
Bit(x, i) == (x \div Pow2[i]) % 2

(* Remainder of the 23 bit word w modulo the generator: its syndrome.          *)
RECURSIVE Rem(_, _)
Rem(w, x) == IF x < 0 THEN w
             ELSE Rem(IF Bit(w, 11 + x) = 1 THEN w ^^ (Poly * Pow2[x]) ELSE w, x - 1)
Syndrome(w) == Rem(w, 11)

ParityTable == [d \in 0..4095 |-> Syndrome(d * 2048)]
Parity(d)   == ParityTable[d]
CodeWord(d) == d * 2048 + Parity(d)

(* Every error pattern of weight at most three.                                *)
Errors == {0}
     \cup { Pow2[i] : i \in 0..22 }
     \cup { Pow2[p[1]] + Pow2[p[2]] : p \in {q \in (0..22) \X (0..22) : q[1] < q[2]} }
     \cup { Pow2[p[1]] + Pow2[p[2]] + Pow2[p[3]] :
               p \in {q \in (0..22) \X (0..22) \X (0..22) : q[1] < q[2] /\ q[2] < q[3]} }

ErrorSyndrome == [e \in Errors |-> Syndrome(e)]
(* The code is perfect: the syndrome of a correctable error identifies it.     *)
Leader == [s \in 0..2047 |-> CHOOSE e \in Errors : ErrorSyndrome[e] = s]

(* Maximum likelihood decoding of a received word to 12 data bits.             *)
DecodeWord(L, w) == (w ^^ L[Syndrome(w)]) \div 2048

RECURSIVE WeightR(_, _)
WeightR(x, n) == IF n = 0 THEN 0 ELSE (x % 2) + WeightR(x \div 2, n - 1)
Weight(x) == WeightR(x, 23)

(* ---- properties of the design ---- *)
Systematic  == \A d \in 0..4095 : Syndrome(CodeWord(d)) = 0 /\ CodeWord(d) \div 2048 = d
MinDistance == \A d \in 1..4095 : Weight(CodeWord(d)) >= 7
Perfect     == Cardinality(Errors) = 2048 /\ Cardinality({ErrorSyndrome[e] : e \in Errors}) = 2048
=============================================================================
