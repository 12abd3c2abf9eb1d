------------------------------ MODULE LiveTrace ------------------------------
(* One program of the pipeline (or all of it, PipeDesign), watched while it is  *)
(* fed piece by piece: it is a queue.  An item (a packet, a statistics line, a  *)
(* block of bits) enters the queue with the input that carries it (from), is    *)
(* owed once enough input has been given (by), and leaves at the head.  After   *)
(* every piece the source pauses until the program rests; at rest nothing is    *)
(* owed.  So the end of the input releases only what was not due yet, and the   *)
(* program ends with its input.  If its reader goes away it ends by itself as   *)
(* soon as it owes something again.                                             *)
(* One record per program run: items, steps (given: input so far, got: items    *)
(* that came out), what came out after the end of the input, how it ended.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, k, next, bad
vars == <<l, k, next, bad>>
R == Recs[l]
Init == l \in {x \in 1..W : x <= Len(Recs)} /\ k = 0 /\ next = 1 /\ bad = ""
Given == IF k = 0 THEN 0 ELSE R.steps[k].given
Owed(given, n) == \E i \in n..Len(R.items) : R.items[i].by <= given
Takes(got, given) ==
   IF next + Len(got) - 1 > Len(R.items) THEN "more is handed on than came in"
   ELSE IF \E i \in DOMAIN got : got[i] # R.items[next + i - 1].id THEN "something else is handed on than what came in next"
   ELSE IF \E i \in DOMAIN got : R.items[next + i - 1].from > given THEN "handed on before it came in" ELSE ""
Step == /\ bad = "" /\ k < Len(R.steps) /\ k' = k + 1 /\ l' = l
        /\ LET s == R.steps[k + 1] IN
           /\ bad' = IF Takes(s.got, s.given) # "" THEN Takes(s.got, s.given)
                     ELSE IF Owed(s.given, next + Len(s.got)) THEN "something received is held back while the source pauses" ELSE ""
           /\ next' = next + Len(s.got)
Finish == /\ bad = "" /\ k = Len(R.steps) /\ k' = k + 1 /\ l' = l
          /\ next' = next + Len(R.after)
          /\ bad' = IF R.gone THEN (IF Owed(R.more, next) /\ ~R.ended THEN "the program runs on though its reader is gone" ELSE "")
                    ELSE IF Takes(R.after, Given) # "" THEN Takes(R.after, Given)
                    ELSE IF ~R.ended THEN "the program does not end with its input"
                    ELSE IF R.code # 0 THEN "the program fails at the end of its input" ELSE ""
NextRec == /\ bad = "" /\ k = Len(R.steps) + 1 /\ l + W <= Len(Recs) /\ l' = l + W /\ k' = 0 /\ next' = 1 /\ bad' = ""
Next == Step \/ Finish \/ NextRec
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
