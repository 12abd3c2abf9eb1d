------------------------------ MODULE FrontDesign ------------------------------
(* Design of the receivers' front end: audio arrives in chunks of any size; the  *)
(* modem asks for its own number of samples per block and answers each block     *)
(* with no packet, a packet that failed, or a good packet; good packets are      *)
(* printed.  The blocks, and so the lines, depend on the audio alone, not on how *)
(* it was cut, and nothing that could be processed is kept waiting.              *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Nins,          \* samples the modem may ask for
          MaxChunk, Total
Outcomes == {"none", "bad", "good"}
VARIABLES ask,           \* what the modem asks for, block by block (its own choice, fixed by the signal)
          answer,        \* what it answers, block by block
          fed, used,     \* samples received / processed
          busy,          \* a call is being processed
          log,           \* blocks handed to the modem: first sample and length
          lines          \* block numbers printed
vars == <<ask, answer, fed, used, busy, log, lines>>
MaxBlocks == Total \div (CHOOSE x \in Nins : \A y \in Nins : x <= y) + 1
Init == /\ ask \in [1..MaxBlocks -> Nins] /\ answer \in [1..MaxBlocks -> Outcomes]
        /\ fed = 0 /\ used = 0 /\ busy = FALSE /\ log = <<>> /\ lines = <<>>
Next1 == Len(log) + 1
Ready == fed - used >= ask[Next1]
Feed(n) == /\ ~busy /\ fed + n <= Total
           /\ fed' = fed + n /\ busy' = TRUE /\ UNCHANGED <<ask, answer, used, log, lines>>
Block == /\ busy /\ Ready
         /\ log' = Append(log, [start |-> used, len |-> ask[Next1]])
         /\ used' = used + ask[Next1]
         /\ lines' = IF answer[Next1] = "good" THEN Append(lines, Next1) ELSE lines
         /\ UNCHANGED <<ask, answer, fed, busy>>
Return == busy /\ ~Ready /\ busy' = FALSE /\ UNCHANGED <<ask, answer, fed, used, log, lines>>
Next == (\E n \in 0..MaxChunk : Feed(n)) \/ Block \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Block) /\ WF_vars(Return)
(* the answer that depends on the audio alone *)
RECURSIVE Cut(_, _)
Cut(pos, k) == IF k > MaxBlocks \/ pos + ask[k] > fed THEN <<>> ELSE <<[start |-> pos, len |-> ask[k]]>> \o Cut(pos + ask[k], k + 1)
Whole == Cut(0, 1)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Independent == Prefix(log, Whole) /\ (~busy => log = Whole)
Prompt == ~busy => fed - used < ask[Next1]
Printed == lines = SelectSeq([k \in 1..Len(log) |-> k], LAMBDA k : answer[k] = "good")
Returns == busy ~> ~busy
================================================================================
