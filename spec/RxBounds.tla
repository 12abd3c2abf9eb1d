------------------------------- MODULE RxBounds -------------------------------
(* The calling contract of the receiver on arbitrary samples: each call        *)
(* consumes exactly the number of samples the previous call asked for, asks    *)
(* for a positive number within the announced maximum, writes a terminated     *)
(* text within the announced output size, and answers 0 or 1, 1 only with the  *)
(* CRC flag.  One record per handle: the sequence of its calls.                *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, k, want
R == Recs[l]
Init == l \in 1..(IF Len(Recs) < W THEN Len(Recs) ELSE W) /\ k = 0 /\ want = Recs[l].nin
Call == R.calls[k + 1]
Step == k < Len(R.calls) /\ k' = k + 1 /\ l' = l /\ want' = Call.next
NextRec == k = Len(R.calls) /\ l + W <= Len(Recs) /\ l' = l + W /\ k' = 0 /\ want' = Recs[l + W].nin
Next == Step \/ NextRec
Allowed == k < Len(R.calls) =>
   /\ Call.used = want
   /\ Call.used > 0 /\ Call.next > 0
   /\ Call.used <= R.maxin /\ Call.next <= R.maxin
   /\ Call.ret \in {0, 1} /\ Call.crc \in {0, 1}
   /\ (Call.ret = 1 => Call.crc = 1 /\ Call.len > 0)
   /\ Call.len < R.maxascii
Accepted == Allowed
=============================================================================
