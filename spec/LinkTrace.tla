------------------------------ MODULE LinkTrace ------------------------------
(* A whole radio link: a transmitter sends packets one after the other, the    *)
(* receiver reports packets call by call.  The link has no memory but the      *)
(* queue of packets sent and not yet reported: each report takes the head of   *)
(* the queue, nothing else is ever reported, and when the transmission and the *)
(* time to process it are over the queue is empty.                             *)
(* (Chance may lose one packet of a link whose receiver looks for the tones as *)
(* the four highest peaks of the spectrum; see DESIGN.)                        *)
(* One record per transmission: what was sent, and what every call reported.   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, k, queue, lost, bad
vars == <<l, k, queue, lost, bad>>
R == Recs[l]
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
HexText(P) == [i \in 1..2*Len(P) |-> LET b == P[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
RECURSIVE LStrip(_, _)
LStrip(q, S) == IF q # <<>> /\ q[1] \in S THEN LStrip(SubSeq(q, 2, Len(q)), S) ELSE q
RECURSIVE RStrip(_, _)
RStrip(q, S) == IF q # <<>> /\ q[Len(q)] \in S THEN RStrip(SubSeq(q, 1, Len(q) - 1), S) ELSE q
(* a sentence, up to the number of leading $s and the line ending *)
Norm(q) == IF R.mode = 0 THEN q ELSE RStrip(LStrip(q, {36}), {10, 13})
Expected(p) == IF R.mode = 0 THEN HexText(p) ELSE Norm(p)
Chance == IF R.mode = 0 /\ R.spacing = -1 THEN 1 ELSE 0
Init == /\ l \in 1..(IF Len(Recs) < W THEN Len(Recs) ELSE W) /\ k = 0 /\ lost = 0 /\ bad = ""
        /\ queue = Recs[l].sent
Report == R.got[k + 1]
Takes(n) == Len(queue) >= n /\ (IF Len(queue) >= n THEN Norm(Report) = Expected(queue[n]) ELSE FALSE)
Step == /\ k < Len(R.got) /\ bad = "" /\ k' = k + 1 /\ l' = l
        /\ LET n == IF Takes(1) THEN 1 ELSE IF lost < Chance /\ Takes(2) THEN 2 ELSE 0 IN
           /\ bad' = IF queue = <<>> THEN "reported more packets than were sent"
                     ELSE IF n = 0 THEN "the packet reported is not the one sent next" ELSE ""
           /\ queue' = IF n = 0 THEN queue ELSE SubSeq(queue, n + 1, Len(queue))
           /\ lost' = IF n = 2 THEN lost + 1 ELSE lost
Lost == /\ k = Len(R.got) /\ bad = "" /\ queue # <<>>
        /\ lost' = lost + 1 /\ queue' = Tail(queue)
        /\ bad' = IF lost < Chance THEN "" ELSE "a packet that was sent was never reported"
        /\ UNCHANGED <<l, k>>
NextRec == /\ k = Len(R.got) /\ bad = "" /\ queue = <<>> /\ l + W <= Len(Recs)
           /\ l' = l + W /\ k' = 0 /\ bad' = "" /\ queue' = Recs[l + W].sent /\ lost' = 0
Next == Step \/ Lost \/ NextRec
Accepted == bad = ""
=============================================================================
