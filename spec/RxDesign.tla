------------------------------ MODULE RxDesign ------------------------------
(* Design of the binary receiver: a sliding window of the last Window bits,    *)
(* shifted by Block bits per call; unique words are noted once, when the bits  *)
(* that hold them arrive, in a list of at most MaxTrack positions; on every    *)
(* call the list is walked in order and the first position at which a complete *)
(* valid frame lies is delivered and dropped from the list; positions that     *)
(* have left the window are dropped.                                           *)
(* Checked exhaustively for scaled constants, over every placement of up to    *)
(* MaxPackets frames of every size and of false unique words.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Block, Window, UwLen, Sizes, Horizon, MaxTrack, MaxPackets, MaxFalse

VARIABLES air,        \* transmitted frames: sequence of [pos, len], in order
          false,      \* positions of patterns that look like a unique word
          n,          \* bits received so far
          tracked,    \* unique word list
          out         \* delivered frames
vars == <<air, false, n, tracked, out>>

Starts == { air[i].pos : i \in DOMAIN air }
IsUW(p) == p \in Starts \/ p \in false

Init == air = <<>> /\ false = {} /\ n = 0 /\ tracked = <<>> /\ out = <<>>

End == IF air = <<>> THEN 0 ELSE air[Len(air)].pos + air[Len(air)].len
(* the environment: frames and stray patterns are put on the air before reception starts *)
Transmit(p, k) == /\ n = 0 /\ false = {} /\ Len(air) < MaxPackets /\ p >= End
                  /\ air' = Append(air, [pos |-> p, len |-> k])
                  /\ UNCHANGED <<false, n, tracked, out>>
Stray(p) == /\ n = 0 /\ Cardinality(false) < MaxFalse /\ ~IsUW(p)
            /\ false' = false \cup {p}
            /\ UNCHANGED <<air, n, tracked, out>>

Sorted(S) == SetToSortSeq(S, <)
Cap(q) == IF Len(q) > MaxTrack THEN SubSeq(q, 1, MaxTrack) ELSE q
CompleteAt(p, m) == \E i \in DOMAIN air : air[i].pos = p /\ p + air[i].len <= m
FrameAt(p) == air[CHOOSE i \in DOMAIN air : air[i].pos = p]

Receive ==
  /\ n < Horizon + 3 * Window
  /\ n' = n + Block
  /\ LET kept == SelectSeq(tracked, LAMBDA p : p >= n' - Window)
         new  == Sorted({ p \in (n - UwLen)..(n' - UwLen - 1) : IsUW(p) })
         list == Cap(kept \o new)
         hits == { i \in DOMAIN list : CompleteAt(list[i], n') }
     IN IF hits = {} THEN tracked' = list /\ out' = out
        ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y IN
             /\ out' = Append(out, FrameAt(list[i]))
             /\ tracked' = RemoveAt(list, i)
  /\ UNCHANGED <<air, false>>

Next == \/ Receive
        \/ \E p \in 0..Horizon-1 : Stray(p) \/ \E k \in Sizes : Transmit(p, k)

(* ------------------------------------------------------------ properties *)
Delivered == { out[i] : i \in DOMAIN out }
OnlySent    == \A i \in DOMAIN out : \E j \in DOMAIN air : air[j] = out[i]
ExactlyOnce == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
InOrder     == \A i, j \in DOMAIN out : i < j => out[i].pos < out[j].pos
NeverEarly  == \A i \in DOMAIN out : out[i].pos + out[i].len <= n
(* every frame is out by the time its first bit leaves the window *)
NoLoss      == \A i \in DOMAIN air : air[i].pos < n - Window => air[i] \in Delivered
(* ... and in fact one call after it is complete at the latest *)
Prompt      == \A i \in DOMAIN air : air[i].pos + air[i].len + Block <= n => air[i] \in Delivered
Bounded     == Len(tracked) <= MaxTrack
=============================================================================
