----------------------------- MODULE PipeDesign -----------------------------
(* Design of a pipeline of programs (radio, decoder, uploader): each reads      *)
(* items, holds what it makes of them in an output buffer and hands the buffer  *)
(* on when it is full, when it flushes it, or when it ends.  A program ends     *)
(* when its input ends, and when it hands something on and nobody reads it.     *)
(* If every program flushes after every item, nothing received is held back     *)
(* while the pipeline rests, however long the source pauses.                    *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Items, Cap, Flushers
Stages == 1..N
VARIABLES given, open, inq, held, out, alive, killed
vars == <<given, open, inq, held, out, alive, killed>>
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = 0 THEN 0 ELSE f[s] + Sum(f, s - 1)
Init == /\ given = 0 /\ open = TRUE /\ out = 0 /\ killed = FALSE
        /\ inq = [s \in Stages |-> 0] /\ held = [s \in Stages |-> 0] /\ alive = [s \in Stages |-> TRUE]
Give == /\ open /\ given < Items /\ given' = given + 1
        /\ inq' = IF alive[1] THEN [inq EXCEPT ![1] = @ + 1] ELSE inq
        /\ UNCHANGED <<open, held, out, alive, killed>>
Close == open /\ open' = FALSE /\ UNCHANGED <<given, inq, held, out, alive, killed>>
(* stage s hands n items on: to the next stage, or out *)
Deliver(s, n, q) == /\ inq' = IF s < N THEN (IF alive[s + 1] THEN [q EXCEPT ![s + 1] = @ + n] ELSE q) ELSE q
                    /\ out' = IF s = N THEN out + n ELSE out
Take(s) == /\ alive[s] /\ inq[s] > 0
           /\ LET q == [inq EXCEPT ![s] = @ - 1]
                  h == held[s] + 1 IN
              IF s \in Flushers \/ h = Cap
              THEN /\ Deliver(s, h, q) /\ held' = [held EXCEPT ![s] = 0]
                   /\ alive' = IF s < N THEN [alive EXCEPT ![s] = alive[s + 1]] ELSE alive
              ELSE inq' = q /\ held' = [held EXCEPT ![s] = h] /\ UNCHANGED <<out, alive>>
           /\ UNCHANGED <<given, open, killed>>
Over(s) == IF s = 1 THEN ~open ELSE ~alive[s - 1]
End(s) == /\ alive[s] /\ inq[s] = 0 /\ Over(s)
          /\ Deliver(s, held[s], inq) /\ held' = [held EXCEPT ![s] = 0] /\ alive' = [alive EXCEPT ![s] = FALSE]
          /\ UNCHANGED <<given, open, killed>>
(* somebody kills the last program *)
Kill == /\ ~killed /\ alive[N] /\ killed' = TRUE /\ alive' = [alive EXCEPT ![N] = FALSE]
        /\ UNCHANGED <<given, open, inq, held, out>>
Next == Give \/ Close \/ Kill \/ \E s \in Stages : Take(s) \/ End(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Stages : WF_vars(Take(s)) /\ WF_vars(End(s))
AtRest == \A s \in Stages : inq[s] = 0 \/ ~alive[s]
NothingHeld == AtRest /\ ~killed => out = given
NothingLost == ~killed => out + Sum(inq, N) + Sum(held, N) = given
NothingInvented == out <= given
EndsWithInput == ~open ~> \A s \in Stages : ~alive[s]
(* nobody runs on for nobody: a program whose reader is gone ends with the next item it would hand on *)
NoOrphans == \A s \in 1..(N - 1) : alive[s] /\ ~alive[s + 1] /\ s \in Flushers => held[s] = 0
Ripples == \A s \in 1..(N - 1) : (alive[s] /\ ~alive[s + 1] /\ inq[s] > 0) ~> ~alive[s]
=============================================================================
