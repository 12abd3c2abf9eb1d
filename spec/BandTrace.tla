------------------------------ MODULE BandTrace ------------------------------
(* One radio, many signals: what a receiver delivers many payloads and other     *)
(* signals at once, each of them somewhere in the band.  A decoder is given      *)
(* frequency limits, and is a link (LinkTrace) to the payload inside them: a     *)
(* queue of the packets sent and not yet reported, of which every report takes   *)
(* the head.  Signals outside its limits are no part of its link, however strong.*)
(* One record per recording: the signals in it and what every decoder reported.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, d, k, queue, bad
vars == <<l, d, k, queue, bad>>
R == Recs[l]
Guard == 1500
(* which payload is a decoder's own: decided by where its tones are *)
Inside(r, D, s) == r.signals[s].lo >= D.lower /\ r.signals[s].hi <= D.upper
Outside(r, D, s) == r.signals[s].hi + Guard <= D.lower \/ r.signals[s].lo - Guard >= D.upper
Own(r, D) == {s \in DOMAIN r.signals : Inside(r, D, s) /\ r.signals[s].mode = D.mode}
(* an unmodulated carrier inside the limits sends nothing; beside a payload it would be a disturbance, which is another matter *)
Decidable(r, D) == /\ \A s \in DOMAIN r.signals : s \in Own(r, D) \/ Outside(r, D, s) \/ (Own(r, D) = {} /\ r.signals[s].mode = -1 /\ Inside(r, D, s))
                   /\ Cardinality(Own(r, D)) <= 1
Queue(r, D) == IF Own(r, D) = {} THEN <<>> ELSE r.signals[CHOOSE s \in Own(r, D) : TRUE].sent

HexDigit(x) == IF x < 10 THEN 48 + x ELSE 55 + x
HexText(P) == [i \in 1..2*Len(P) |-> LET b == P[(i + 1) \div 2] IN HexDigit(IF (i % 2) = 1 THEN b \div 16 ELSE b % 16)]
RECURSIVE LStrip(_, _)
LStrip(q, S) == IF q # <<>> /\ q[1] \in S THEN LStrip(SubSeq(q, 2, Len(q)), S) ELSE q
RECURSIVE RStrip(_, _)
RStrip(q, S) == IF q # <<>> /\ q[Len(q)] \in S THEN RStrip(SubSeq(q, 1, Len(q) - 1), S) ELSE q
Norm(q) == RStrip(LStrip(q, {36}), {10, 13})
Text(D, p) == IF D.mode = 0 THEN HexText(p) ELSE Norm(p)

Load(i, j) == /\ l' = i /\ d' = j /\ k' = 0
              /\ LET r == Recs[i] D == r.decs[j] IN
                 /\ queue' = Queue(r, D)
                 /\ bad' = IF Decidable(r, D) THEN "" ELSE "undecidable"
Init == /\ l \in {x \in 1..W : x <= Len(Recs)} /\ d = 0 /\ k = 0 /\ queue = <<>> /\ bad = ""
D == R.decs[d]
Report == /\ d > 0 /\ bad = "" /\ k < Len(D.got)
          /\ k' = k + 1 /\ UNCHANGED <<l, d>>
          /\ queue' = IF queue = <<>> THEN queue ELSE Tail(queue)
          /\ bad' = IF queue = <<>> THEN "reported what no payload in its limits sent"
                    ELSE IF Norm(D.got[k + 1]) # Text(D, Head(queue)) THEN "the packet reported is not the one its payload sent next" ELSE ""
Over == IF d = 0 THEN TRUE ELSE k = Len(D.got)
Lost == /\ Over /\ bad = "" /\ queue # <<>>
        /\ bad' = "a packet its payload sent was never reported" /\ UNCHANGED <<l, d, k, queue>>
NextDec == /\ Over /\ bad = "" /\ queue = <<>> /\ d < Len(R.decs) /\ Load(l, d + 1)
NextRec == /\ Over /\ bad = "" /\ queue = <<>> /\ d = Len(R.decs) /\ l + W <= Len(Recs) /\ Load(l + W, 1)
Next == Report \/ Lost \/ NextDec \/ NextRec
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
