------------------------------ MODULE AgeTrace ------------------------------
(* The life of a receiver that stays on for a long time.  It is a sequence of    *)
(* episodes: nothing, noise, interference, a carrier, settings being changed, or *)
(* a transmission.  What the receiver owes a transmission depends on that        *)
(* transmission only: it is a link (LinkTrace), a queue of the packets sent and  *)
(* not yet reported, of which every report takes the head, and which is empty at *)
(* its end.  The age of the receiver, what it heard before and what was read or  *)
(* printed meanwhile are no part of that state; only the frequency limits set    *)
(* last are.  (Chance may lose one packet in a life: where the tones are found   *)
(* as the four highest peaks of the spectrum, a block in which one tone has two   *)
(* peaks is misread; about one packet in 7000.)  Between transmissions nothing that was sent before is reported     *)
(* (what may be reported of mere noise is another matter: RxTrace).              *)
(* One record per life: its episodes, each with what was reported during it.     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, e, k, queue, heard, limits, age, lost, bad
vars == <<l, e, k, queue, heard, limits, age, lost, bad>>
R == Recs[l]
E == R.episodes[e]
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 55 + x
HexText(P) == [i \in 1..2*Len(P) |-> LET b == P[(i + 1) \div 2] IN HexDigit(IF (i % 2) = 1 THEN b \div 16 ELSE b % 16)]
RECURSIVE LStrip(_, _)
LStrip(q, S) == IF q # <<>> /\ q[1] \in S THEN LStrip(SubSeq(q, 2, Len(q)), S) ELSE q
RECURSIVE RStrip(_, _)
RStrip(q, S) == IF q # <<>> /\ q[Len(q)] \in S THEN RStrip(SubSeq(q, 1, Len(q) - 1), S) ELSE q
Norm(q) == IF R.mode = 0 THEN q ELSE RStrip(LStrip(q, {36}), {10, 13})
Chance == IF R.mode = 0 /\ R.spacing = -1 THEN 1 ELSE 0
Text(p) == IF R.mode = 0 THEN HexText(p) ELSE Norm(p)

Start(i, j, h, lim, a) ==
    /\ l' = i /\ e' = j /\ k' = 0
    /\ LET x == Recs[i].episodes[j] IN
       /\ queue' = x.sent
       /\ limits' = IF x.kind = "limits" THEN <<x.lo, x.hi>> ELSE lim
       /\ age' = a + x.blocks
       /\ heard' = h
       /\ lost' = IF j = 1 THEN 0 ELSE lost
       /\ bad' = IF x.kind = "transmission" /\ (x.lo < limits'[1] \/ x.hi > limits'[2]) THEN "undecidable: a transmission outside the limits" ELSE ""
Init == /\ l \in {x \in 1..W : x <= Len(Recs)} /\ e = 0 /\ k = 0 /\ queue = <<>> /\ heard = {} /\ limits = <<-24000, 24000>> /\ age = 0 /\ lost = 0 /\ bad = ""
Takes(n) == Len(queue) >= n /\ (IF Len(queue) >= n THEN Norm(E.got[k + 1]) = Text(queue[n]) ELSE FALSE)
Report == /\ e > 0 /\ bad = "" /\ k < Len(E.got)
          /\ k' = k + 1 /\ UNCHANGED <<l, e, limits, age>>
          /\ IF E.kind = "transmission"
             THEN /\ heard' = heard \cup {Norm(E.got[k + 1])}
                  /\ LET n == IF Takes(1) THEN 1 ELSE IF lost < Chance /\ Takes(2) THEN 2 ELSE 0 IN
                     /\ queue' = IF n = 0 THEN queue ELSE SubSeq(queue, n + 1, Len(queue))
                     /\ lost' = IF n = 2 THEN lost + 1 ELSE lost
                     /\ bad' = IF queue = <<>> THEN "reported more packets than were sent"
                               ELSE IF n = 0 THEN "the packet reported is not the one sent next" ELSE ""
             ELSE /\ UNCHANGED <<queue, heard, lost>>
                  /\ bad' = IF Norm(E.got[k + 1]) \in heard THEN "a packet is reported again, after its transmission" ELSE ""
Over == IF e = 0 THEN TRUE ELSE k = Len(E.got)
Lost == /\ Over /\ bad = "" /\ queue # <<>> /\ queue' = Tail(queue) /\ lost' = lost + 1
        /\ bad' = IF lost < Chance THEN "" ELSE "a packet that was sent was never reported"
        /\ UNCHANGED <<l, e, k, heard, limits, age>>
NextEpisode == /\ Over /\ bad = "" /\ queue = <<>> /\ e < Len(R.episodes) /\ Start(l, e + 1, heard, limits, age)
NextLife == /\ Over /\ bad = "" /\ queue = <<>> /\ e = Len(R.episodes) /\ l + W <= Len(Recs) /\ Start(l + W, 1, {}, <<-24000, 24000>>, 0)
Next == Report \/ Lost \/ NextEpisode \/ NextLife
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
