------------------------------- MODULE V3Names -------------------------------
(* Sensor names over several payloads: packets announce names for some sensor     *)
(* positions; the listener remembers them per payload and position.  hist is the  *)
(* whole history; what is remembered is checked against it.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Calls, Names, MaxSensors, MaxLen, Show
Quiet == "-"                          \* a sensor without a name
(* a packet: its payload and, per sensor, the name announced or Quiet; no sensors at all is <<>> *)
Lists == UNION {[1..n -> Names \cup {Quiet}] : n \in 0..MaxSensors}
Packets == [call : Calls, s : Lists]
VARIABLES hist, cache, shown
vars == <<hist, cache, shown>>
Generic == "unknown"
Init == hist = <<>> /\ cache = [c \in Calls |-> [i \in 1..MaxSensors |-> Generic]] /\ shown = <<>>
Hear(p) ==
   /\ Len(hist) < MaxLen
   /\ hist' = Append(hist, p)
   /\ cache' = [cache EXCEPT ![p.call] = [i \in 1..MaxSensors |-> IF i <= Len(p.s) /\ p.s[i] # Quiet THEN p.s[i] ELSE @[i]]]
   /\ shown' = [i \in DOMAIN p.s |-> cache'[p.call][i]]
Next == \E p \in Packets : Hear(p)
Spec == Init /\ [][Next]_vars
(* the name shown at a position is the last one that payload announced there, or the generic one *)
Announced(h, c, i) == SelectSeq(h, LAMBDA p : p.call = c /\ i <= Len(p.s) /\ p.s[i] # Quiet)
Last_(h, c, i) == LET a == Announced(h, c, i) IN IF a = <<>> THEN Generic ELSE a[Len(a)].s[i]
LastAnnounced == \A c \in Calls : \A i \in 1..MaxSensors : cache[c][i] = Last_(hist, c, i)
ShownIsLast == hist # <<>> => LET p == hist[Len(hist)] IN shown = [i \in DOMAIN p.s |-> Last_(hist, p.call, i)]
(* packets of other payloads change nothing *)
OthersUnaffected == [][\A c \in Calls : hist'[Len(hist')].call # c => cache'[c] = cache[c]]_vars
(* what a packet shows depends only on the packets of its own payload *)
OwnHistoryOnly == hist # <<>> => LET p == hist[Len(hist)]
                                     own == SelectSeq(hist, LAMBDA q : q.call = p.call) IN
                                 shown = [i \in DOMAIN p.s |-> Last_(own, p.call, i)]
Printed == (Show /\ Len(hist) = MaxLen) => PrintT(<<"HISTORY", ToJson([h |-> hist])>>)
===============================================================================
