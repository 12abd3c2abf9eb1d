---------------------------- MODULE IsolationTrace ----------------------------
(* Composition of receivers that share nothing: the state of the whole is the  *)
(* tuple of the components' states, and a step of the whole is one component's *)
(* step.  A component is known by what it answers, call by call, when it runs  *)
(* alone; an interleaved execution is allowed iff each step answers what that  *)
(* component answers at that point of its own history.                         *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, k, pos, bad
R == Recs[l]
Zeros(r) == [h \in DOMAIN r.alone |-> 0]
Init == l \in 1..(IF Len(Recs) < W THEN Len(Recs) ELSE W) /\ k = 0 /\ pos = Zeros(Recs[l]) /\ bad = ""
Step == /\ bad = "" /\ k < Len(R.steps) /\ k' = k + 1 /\ l' = l
        /\ LET st == R.steps[k + 1]  p == pos[st.h] + 1 IN
           /\ pos' = [pos EXCEPT ![st.h] = p]
           /\ bad' = IF p <= Len(R.alone[st.h]) /\ R.alone[st.h][p] = st.out THEN "" ELSE "receiver answers differently in company"
NextRec == /\ bad = "" /\ k = Len(R.steps) /\ l + W <= Len(Recs)
           /\ l' = l + W /\ k' = 0 /\ bad' = "" /\ pos' = Zeros(Recs[l + W])
Next == Step \/ NextRec
Accepted == bad = ""
=============================================================================
