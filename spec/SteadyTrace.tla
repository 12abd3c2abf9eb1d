----------------------------- MODULE SteadyTrace -----------------------------
(* What a program of the station holds (SteadyDesign), seen from outside: the   *)
(* program is given the same cycle of input again and again, and at rest after  *)
(* every cycle what it holds is taken: objects (Python programs; with their    *)
(* text), memory (units of 16 bytes), open files and threads.  The specification learns, during the first cycles (warm), the    *)
(* most the program holds at rest, and from then on it may never hold more      *)
(* (slack: what a rested program may still vary by, far less than a few bytes   *)
(* per item over all the later cycles).                                         *)
(* One record per program run; work: the items it handed on in each cycle, so   *)
(* that a program that does nothing does not pass for one that holds nothing.   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, k, most, bad
vars == <<l, k, most, bad>>
R == Recs[l]
None == [held |-> 0, mem |-> 0, fds |-> 0, threads |-> 0]
Init == l \in {x \in 1..W : x <= Len(Recs)} /\ k = 0 /\ most = None /\ bad = ""
Larger(a, b) == IF a > b THEN a ELSE b
Max(a, b) == [held |-> Larger(a.held, b.held), mem |-> Larger(a.mem, b.mem), fds |-> Larger(a.fds, b.fds), threads |-> Larger(a.threads, b.threads)]
Cycle == /\ bad = "" /\ k < Len(R.samples) /\ k' = k + 1 /\ l' = l
         /\ LET s == R.samples[k + 1] IN
            IF k < R.warm THEN most' = Max(most, s) /\ bad' = ""
            ELSE /\ most' = most
                 /\ bad' = IF s.fds > most.fds THEN "it holds more open files the longer it runs"
                           ELSE IF s.threads > most.threads THEN "it runs more threads the longer it runs"
                           ELSE IF s.held > most.held + R.slack THEN "it keeps more objects the longer it runs"
                           ELSE IF s.mem > most.mem + R.memslack THEN "it uses more memory the longer it runs" ELSE ""
Worked == /\ bad = "" /\ k = Len(R.samples) /\ k' = k + 1 /\ l' = l /\ most' = most
          /\ bad' = IF k < 2 * R.warm THEN "it did not run all cycles"
                    ELSE IF \E i \in 2..Len(R.work) : R.work[i] < R.least THEN "it does not hand on what every cycle brings" ELSE ""
NextRec == /\ bad = "" /\ k = Len(R.samples) + 1 /\ l + W <= Len(Recs) /\ l' = l + W /\ k' = 0 /\ most' = None /\ bad' = ""
Next == Cycle \/ Worked \/ NextRec
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
