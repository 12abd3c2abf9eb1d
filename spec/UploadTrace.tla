----------------------------- MODULE UploadTrace -----------------------------
(* Validates recorded histories of the real SondeHub uploader (thread driven by *)
(* a scheduler) against the contract of UploadDesign.                           *)
(*  tq     accepted records not uploaded yet      cur  ids of the last batch    *)
(*  tries  attempts of it                         open whether it must ("yes"), *)
(*         may ("maybe") or must not ("no") be sent again                       *)
(*  lastp  end of the last station upload (-1: none yet)  ptries/popen likewise *)
(*  late   sleeps started since the station upload became due                   *)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, i, tq, cur, tries, open, pos, closed, lastp, ptries, popen, ppos, late, badT, badP
vars == <<l, i, tq, cur, tries, open, pos, closed, lastp, ptries, popen, ppos, late, badT, badP>>
R == Recs[l]
C == R.cfg
Fresh(n) == /\ tq = <<>> /\ cur = <<>> /\ tries = 0 /\ open = "no" /\ pos = (IF n <= Len(Recs) THEN Recs[n].cfg.pos ELSE <<>>) /\ closed = FALSE
            /\ lastp = -1 /\ ptries = 0 /\ popen = "no" /\ late = 0 /\ ppos = <<>> /\ badT = "" /\ badP = ""
Init == l \in 1..W /\ i = 0 /\ Fresh(l)
E == R.ev[i + 1]
Interval == (C.hours2 * 3600) \div 2
Retryable == 500..504
Ids(q) == [k \in 1..Len(q) |-> q[k].id]
Poss(q) == [k \in 1..Len(q) |-> q[k].pos]

AddE == /\ E.e = "add"
        /\ tq' = IF E.ok /\ ~closed /\ ~C.inhibit THEN Append(tq, [id |-> E.id, pos |-> pos]) ELSE tq
        /\ badT' = IF E.raised THEN "adding a record raised an exception" ELSE ""
        /\ UNCHANGED <<cur, tries, open, pos, closed, lastp, ptries, popen, ppos, late, badP>>
CloseE == E.e = "close" /\ closed' = TRUE /\ UNCHANGED <<tq, cur, tries, open, pos, lastp, ptries, popen, ppos, late, badT, badP>>
PosE == E.e = "pos" /\ pos' = (IF pos = <<>> THEN pos ELSE E.pos) /\ UNCHANGED <<tq, cur, tries, open, closed, lastp, ptries, popen, ppos, late, badT, badP>>
Opened(st, n) == IF n >= C.retries THEN "no" ELSE IF st \in Retryable THEN "yes" ELSE IF st \in 505..599 THEN "maybe" ELSE "no"
Again == open # "no" /\ E.ids = Ids(cur)
TPut == /\ E.e = "tput"
        /\ LET n == Len(E.ids)
               again == Again
               new == n >= 1 /\ n <= Len(tq) /\ E.ids = Ids(SubSeq(tq, 1, n))
               b == IF again THEN cur ELSE SubSeq(tq, 1, n)
           IN /\ badT' = IF C.inhibit THEN "telemetry uploaded although uploads are inhibited"
                         ELSE IF ~E.good THEN "telemetry upload is not a gzipped JSON list sent to the telemetry address"
                         ELSE IF open = "yes" /\ ~again THEN "a batch is not sent again after a server error, or differs"
                         ELSE IF ~again /\ ~new THEN "a batch is not made of the next queued records, once each and in order"
                         ELSE IF E.poss # Poss(b) THEN "a record carries a station position other than the configured one"
                         ELSE IF \E k \in 1..n : E.calls[k] # C.call THEN "a record carries another uploader callsign" ELSE ""
              /\ IF badT' = "" THEN /\ cur' = b /\ tries' = (IF again THEN tries + 1 ELSE 1)
                                    /\ tq' = (IF again THEN tq ELSE SubSeq(tq, n + 1, Len(tq)))
                                    /\ open' = Opened(E.st, tries')
                               ELSE UNCHANGED <<cur, tries, tq, open>>
        /\ UNCHANGED <<pos, closed, lastp, ptries, popen, ppos, late, badP>>
Due(t) == lastp = -1 \/ t - lastp > Interval
MayPut(t) == lastp = -1 \/ t - lastp >= Interval
PPut == /\ E.e = "pput"
        /\ LET again == popen = "yes" IN
           /\ badP' = IF C.inhibit THEN "station information uploaded although uploads are inhibited"
                      ELSE IF E.pos # (IF again THEN ppos ELSE pos) THEN "the station position sent is not the configured one"
                      ELSE IF ~E.good \/ E.call # C.call \/ E.radio # C.radio \/ E.ant # C.ant \/ E.mobile THEN "the station information sent is not the configured one"
                      ELSE IF ~again /\ ~MayPut(E.t0) THEN "station information sent again before the update interval is over" ELSE ""
           /\ ptries' = IF again THEN ptries + 1 ELSE 1
           /\ popen' = IF E.st = 500 /\ ptries' < C.retries THEN "yes" ELSE "no"
           /\ lastp' = IF popen' = "yes" THEN lastp ELSE E.t
           /\ late' = 0 /\ ppos' = (IF again THEN ppos ELSE E.pos)
        /\ UNCHANGED <<tq, cur, tries, open, pos, closed, badT>>
SleepE == /\ E.e = "sleep"
          /\ late' = IF Due(E.t) /\ ~closed THEN late + 1 ELSE 0
          /\ badP' = IF closed THEN "" ELSE IF popen = "yes" THEN "station information not sent again after a server error"
                     ELSE IF lastp = -1 THEN "station information not sent in the first pass"
                     ELSE IF late' > C.rate THEN "station information not sent although the update interval is over" ELSE ""
          /\ UNCHANGED <<tq, cur, tries, open, pos, closed, lastp, ptries, popen, ppos, badT>>
EndE == /\ E.e \in {"end", "hang"}
        /\ badT' = IF E.e = "hang" THEN "the uploader does not end after it is closed"
                   ELSE IF ~closed THEN "the upload thread ended before the uploader was closed"
                   ELSE IF tq # <<>> THEN "records are left over, never uploaded, after the uploader was closed"
                   ELSE IF open = "yes" THEN "a batch is not sent again after a server error" ELSE ""
        /\ UNCHANGED <<tq, cur, tries, open, pos, closed, lastp, ptries, popen, ppos, late, badP>>
Event == i < Len(R.ev) /\ i' = i + 1 /\ l' = l /\ (AddE \/ CloseE \/ PosE \/ TPut \/ PPut \/ SleepE \/ EndE)
NextRec == /\ i = Len(R.ev) /\ l + W <= Len(Recs) /\ l' = l + W /\ i' = 0
           /\ tq' = <<>> /\ cur' = <<>> /\ tries' = 0 /\ open' = "no" /\ pos' = Recs[l + W].cfg.pos /\ closed' = FALSE
           /\ lastp' = -1 /\ ptries' = 0 /\ popen' = "no" /\ late' = 0 /\ ppos' = <<>> /\ badT' = "" /\ badP' = ""
Next == l <= Len(Recs) /\ badT = "" /\ badP = "" /\ (Event \/ NextRec)
Telemetry == badT = ""
Position == badP = ""
=============================================================================
