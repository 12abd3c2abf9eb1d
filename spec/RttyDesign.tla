------------------------------ MODULE RttyDesign ------------------------------
(* Design of the RTTY receiver.  Positions are in characters.  A sentence is   *)
(* d '$'s followed by a body; every '$' followed by another one is a unique    *)
(* word.  Extraction from a unique word is tried once MaxLen characters are    *)
(* there, and succeeds iff at most MaxDollar '$'s remain ahead of the body and *)
(* the sentence ends within MaxLen characters.  A delivery drops every noted   *)
(* unique word that lies less than Clear characters after the delivered one.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Block, MaxLen, Dollars, Bodies, Horizon, MaxTrack, MaxDollar, Clear, MaxSentences
Window == MaxLen + Block

VARIABLES air, n, tracked, out
vars == <<air, n, tracked, out>>

UwPos(a) == { a.pos + j : j \in 0..a.d-2 }
Uws == UNION { UwPos(air[i]) : i \in DOMAIN air }
BodyPos(a) == a.pos + a.d

Init == air = <<>> /\ n = 0 /\ tracked = <<>> /\ out = <<>>
End == IF air = <<>> THEN 0 ELSE air[Len(air)].pos + air[Len(air)].d + air[Len(air)].body
Transmit(p, d, b) == /\ n = 0 /\ Len(air) < MaxSentences /\ p >= End
                     /\ air' = Append(air, [pos |-> p, d |-> d, body |-> b])
                     /\ UNCHANGED <<n, tracked, out>>

Cap(q) == IF Len(q) > MaxTrack THEN SubSeq(q, 1, MaxTrack) ELSE q
Good(p, m) == \E i \in DOMAIN air : /\ p \in UwPos(air[i])
                                    /\ p + MaxLen <= m
                                    /\ BodyPos(air[i]) - p <= MaxDollar
                                    /\ BodyPos(air[i]) + air[i].body <= p + MaxLen
SentenceAt(p) == CHOOSE i \in DOMAIN air : p \in UwPos(air[i])

Receive ==
  /\ n < Horizon + 3 * Window
  /\ n' = n + Block
  /\ LET kept == SelectSeq(tracked, LAMBDA p : p >= n' - Window)
         new  == SetToSortSeq({ p \in (n - 2)..(n' - 3) : p \in Uws }, <)
         list == Cap(kept \o new)
         hits == { i \in DOMAIN list : Good(list[i], n') }
     IN IF hits = {} THEN tracked' = list /\ out' = out
        ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y IN
             /\ out' = Append(out, SentenceAt(list[i]))
             /\ tracked' = SelectSeq(list, LAMBDA p : p - list[i] >= Clear)
  /\ UNCHANGED air
Next == Receive \/ \E p \in 0..Horizon-1, d \in Dollars, b \in Bodies : Transmit(p, d, b)

ExactlyOnce == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
InOrder     == \A i, j \in DOMAIN out : i < j => out[i] < out[j]
Fits(a)     == 2 + a.body <= MaxLen
NoLoss      == \A i \in DOMAIN air : Fits(air[i]) /\ n > BodyPos(air[i]) + Window => \E k \in DOMAIN out : out[k] = i
=============================================================================
