---------------------------- MODULE UploadDesign ----------------------------
(* The SondeHub uploader as a design: a decoder thread that adds records and    *)
(* closes the uploader, and one upload thread that drains the queue, uploads    *)
(* the batch (again after a server error, up to Retries attempts), uploads the  *)
(* station position when it is due, and sleeps.  Server answers are free.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxAdds,     \* records the decoder adds
          Retries,     \* attempts per upload
          Rate,        \* sleeps per pass
          MaxDue,      \* times the update interval may run out
          Statuses,    \* answers of the server: "ok", "srv" (retryable), "err" (not), "exc" (no answer)
          HasPos,      \* a station position is configured (the listener record carries it)
          Gen          \* record the schedule, and print it when the behaviour ends

VARIABLES queue, added, running,           \* shared
          pc, last, batch, tries, slept,   \* upload thread
          due, dues,                       \* the update interval has run out
          log,                             \* batches: [ids, answers]
          plog,                            \* station uploads: answers of each
          hist, acts                       \* schedule: what the environment did before each thread step
vars == <<queue, added, running, pc, last, batch, tries, slept, due, dues, log, plog, hist, acts>>

Init == /\ queue = <<>> /\ added = 0 /\ running = TRUE
        /\ pc = "top" /\ last = FALSE /\ batch = <<>> /\ tries = 0 /\ slept = 0
        /\ due = TRUE /\ dues = 0 /\ log = <<>> /\ plog = <<>> /\ hist = <<>> /\ acts = <<>>

Act(a) == acts' = IF Gen THEN Append(acts, a) ELSE acts
Step(kind, answer) == IF Gen THEN hist' = Append(hist, [k |-> kind, st |-> answer, acts |-> acts]) /\ acts' = <<>>
                      ELSE hist' = hist /\ acts' = acts
Quiet == hist' = hist /\ acts' = acts
(* ------------------------------------------------------------- environment *)
Add == /\ running /\ added < MaxAdds
       /\ added' = added + 1 /\ queue' = Append(queue, added + 1) /\ Act("add") /\ hist' = hist
       /\ UNCHANGED <<running, pc, last, batch, tries, slept, due, dues, log, plog>>
Close == /\ running /\ (Gen => Len(hist) >= 14) /\ running' = FALSE /\ Act("close") /\ hist' = hist
         /\ UNCHANGED <<queue, added, pc, last, batch, tries, slept, due, dues, log, plog>>
Elapse == /\ ~due /\ dues < MaxDue /\ due' = TRUE /\ dues' = dues + 1 /\ Act("due") /\ hist' = hist
          /\ UNCHANGED <<queue, added, running, pc, last, batch, tries, slept, log, plog>>
(* ----------------------------------------------------------- upload thread *)
Top == /\ pc = "top" /\ last' = ~running /\ batch' = <<>> /\ tries' = 0 /\ pc' = "drain" /\ Quiet
       /\ UNCHANGED <<queue, added, running, slept, due, dues, log, plog>>
Drain == /\ pc = "drain" /\ queue # <<>>
         /\ batch' = Append(batch, Head(queue)) /\ queue' = Tail(queue) /\ Step("get", "")
         /\ UNCHANGED <<added, running, pc, last, tries, slept, due, dues, log, plog>>
Drained == /\ pc = "drain" /\ queue = <<>> /\ Quiet
           /\ pc' = IF batch # <<>> THEN "put" ELSE IF last THEN "end" ELSE "pos"
           /\ log' = IF batch # <<>> THEN Append(log, [ids |-> batch, ans |-> <<>>]) ELSE log
           /\ UNCHANGED <<queue, added, running, last, batch, tries, slept, due, dues, plog>>
Put(a) == /\ pc = "put" /\ Step("tput", a)
          /\ log' = [log EXCEPT ![Len(log)].ans = Append(@, a)]
          /\ IF a = "srv" /\ tries + 1 < Retries THEN tries' = tries + 1 /\ pc' = pc
             ELSE tries' = 0 /\ pc' = IF last THEN "end" ELSE "pos"
          /\ UNCHANGED <<queue, added, running, last, batch, slept, due, dues, plog>>
NotDue == /\ pc = "pos" /\ ~due /\ pc' = "sleep" /\ slept' = 0 /\ Quiet
          /\ UNCHANGED <<queue, added, running, last, batch, tries, due, dues, log, plog>>
PosStart == /\ pc = "pos" /\ due /\ pc' = "pput" /\ tries' = 0 /\ plog' = Append(plog, <<>>) /\ due' = FALSE /\ Quiet
            /\ UNCHANGED <<queue, added, running, last, batch, slept, dues, log>>
PPut(a) == /\ pc = "pput" /\ Step("pput", a)
           /\ plog' = [plog EXCEPT ![Len(plog)] = Append(@, a)]
           /\ IF a = "srv" /\ tries + 1 < Retries THEN tries' = tries + 1 /\ pc' = pc /\ slept' = slept
              ELSE tries' = 0 /\ pc' = "sleep" /\ slept' = 0
           /\ UNCHANGED <<queue, added, running, last, batch, due, dues, log>>
Sleep == /\ pc = "sleep" /\ Step("sleep", "")
         /\ IF ~running \/ slept + 1 >= Rate THEN pc' = "top" /\ slept' = 0 ELSE pc' = pc /\ slept' = slept + 1
         /\ UNCHANGED <<queue, added, running, last, batch, tries, due, dues, log, plog>>
Thread == Top \/ Drain \/ Drained \/ (\E a \in Statuses : Put(a) \/ PPut(a)) \/ NotDue \/ PosStart \/ Sleep
Done == pc = "end" /\ ~running /\ UNCHANGED vars
Next == Add \/ Close \/ Elapse \/ Thread \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Thread) /\ WF_vars(Close)

(* -------------------------------------------------------------- properties *)
Sent == [i \in 1..Len(log) |-> log[i].ids]
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))
(* every record in exactly one batch or still waiting, in the order added *)
ExactlyOnce == LET inHand == IF pc = "drain" THEN batch ELSE <<>> IN
               Flat(Sent) \o inHand \o queue = [i \in 1..added |-> i]
BatchRetries == \A i \in 1..Len(log) : /\ Len(log[i].ans) <= Retries
                                       /\ \A j \in 1..Len(log[i].ans) - 1 : log[i].ans[j] = "srv"
                                       /\ log[i].ids # <<>>
PosRetries == \A i \in 1..Len(plog) : Len(plog[i]) <= Retries /\ \A j \in 1..Len(plog[i]) - 1 : plog[i][j] = "srv"
PosPerInterval == Len(plog) <= dues + 1
FirstPass == pc = "sleep" => Len(plog) >= 1
AllUploaded == pc = "end" => queue = <<>> /\ Flat(Sent) = [i \in 1..added |-> i]
Ends == <>(pc = "end")
Printed == Gen /\ pc = "end" => PrintT(<<"SCHEDULE", ToJson(hist)>>)
StopAtEnd == ~(Gen /\ pc = "end")
=============================================================================
