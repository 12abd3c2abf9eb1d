------------------------------- MODULE Channel -------------------------------
(* One code word crossing a noisy channel: the sender picks a data word, the   *)
(* channel flips bits one at a time, at most three of them.  The receiver must *)
(* recover the data word in every reachable state.  The code is linear, so the *)
(* zero word and the twelve unit words represent all data words (the           *)
(* syndrome, hence the leader, depends only on the error); FullWords widens it. *)
EXTENDS Golay

CONSTANT Words            \* data words the sender may pick
VARIABLES data, word, flips

UnitWords == {0} \cup {2^i : i \in 0..11}
FullWords == 0..4095
L == Leader

Init == data \in Words /\ word = CodeWord(data) /\ flips = 0
Flip(i) == /\ flips < 3
           /\ word' = word ^^ Pow2[i]
           /\ flips' = flips + 1
           /\ UNCHANGED data
Next == \E i \in 0..22 : Flip(i)
View == <<data, word>>

Recovered == DecodeWord(L, word) = data
Corrected == Syndrome(word ^^ L[Syndrome(word)]) = 0
ASSUME Systematic
ASSUME MinDistance
ASSUME Perfect
=============================================================================
