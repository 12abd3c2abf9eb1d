----------------------------- MODULE StationTrace -----------------------------
(* A receiving station as the start scripts put it together: one radio, a       *)
(* decoder per configured signal, an uploader per decoder.  For every station   *)
(* recorded, payloads transmit anywhere in the band configured for them; each   *)
(* must be heard by the decoder for it and reported on the frequency it is on.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, s, p, bad
vars == <<l, s, p, bad>>
R == Recs[l]
C == R.cfg
Abs(x) == IF x < 0 THEN -x ELSE x

Decs == DOMAIN R.decs
Ups == DOMAIN R.ups
Signals == DOMAIN C.signals
Rate == 48000
UpsOf(d) == {u \in Ups : R.ups[u].from = d}

(* -- the station as it is set up -- *)
RadioAsSet ==
  /\ R.radio.rate = Rate /\ R.radio.gain = C.gain /\ R.radio.bias = C.bias /\ R.radio.ppm = C.ppm /\ R.radio.device = C.device
DecoderWired(d) ==
  LET D == R.decs[d] IN
  /\ D.whole                                            \* gets all the radio delivers, as delivered
  /\ D.rate = Rate /\ D.iq = R.radio.iq /\ D.stats
  /\ D.lower < D.upper /\ D.upper <= (Rate \div 2)
  /\ D.lower >= (IF D.iq THEN -(Rate \div 2) ELSE 0)
  /\ Cardinality(UpsOf(d)) = 1
UploaderWired(u) ==
  LET U == R.ups[u] IN
  /\ U.from \in Decs /\ U.whole                         \* all the output of one decoder, and nothing else
  /\ C.passargs => U.args = C.args
Wired ==
  /\ R.radios = 1
  /\ \A d \in Decs : DecoderWired(d)
  /\ \A u \in Ups : UploaderWired(u)
  /\ R.closed
WiredKnown ==
  /\ RadioAsSet
  /\ Cardinality(Decs) = Len(C.signals)
  /\ \A u \in Ups : R.ups[u].freq = R.radio.freq
  /\ \E u \in Ups : R.ups[u].target # 0
WiredUnknown ==                                         \* the radio is set up elsewhere: nothing is known about its frequency
  /\ Cardinality(Decs) = 1
  /\ \A d \in Decs : R.decs[d].mode = C.signals[1].mode
  /\ \A u \in Ups : R.ups[u].freq = 0 /\ R.ups[u].target = 0

(* -- a payload transmits on F, inside the band of signal s -- *)
Half == C.bw \div 2
F == C.signals[s].freq + p * (Half - 2)
Offset == F - R.radio.freq                              \* where it is in what the radio delivers
Hears(d) == R.decs[d].lower <= Offset /\ Offset <= R.decs[d].upper
Received ==
  LET here == {d \in Decs : Hears(d)} IN
  /\ Abs(Offset) <= (Rate \div 2)
  /\ Cardinality(here) = 1
  /\ \A d \in here :
       /\ R.decs[d].mode = C.signals[s].mode
       /\ Abs(R.decs[d].upper - R.decs[d].lower - C.bw) <= 2
       /\ \A u \in UpsOf(d) :
            /\ R.ups[u].freq + Offset = F              \* reported where it is
            /\ R.ups[u].target \in {0, C.signals[s].freq}

Refused == ~R.started /\ R.rc # 0
Init == l \in {x \in 1..W : x <= Len(Recs)} /\ s = 0 /\ p = 0 /\ bad = ""
Next ==
  \/ /\ l <= Len(Recs) /\ s = 0 /\ l' = l
     /\ bad' = IF C.broken THEN (IF Refused THEN "" ELSE "started without its programs")
               ELSE IF ~Wired THEN "the chain is not connected or not set up as configured"
               ELSE IF C.known /\ ~WiredKnown THEN "the radio, decoders or uploaders do not agree with the configuration"
               ELSE IF ~C.known /\ ~WiredUnknown THEN "the decoder or uploader does not agree with the configuration"
               ELSE ""
     /\ s' = 1 /\ p' = IF C.broken \/ ~C.known THEN 2 ELSE -1
  \/ /\ l <= Len(Recs) /\ s > 0 /\ p < 2 /\ l' = l
     /\ bad' = IF Received THEN "" ELSE "a signal in its band is not received and reported where it is"
     /\ IF p = 1 /\ s < Len(C.signals) THEN s' = s + 1 /\ p' = -1 ELSE s' = s /\ p' = p + 1
  \/ /\ l <= Len(Recs) /\ s > 0 /\ p = 2 /\ l' = l + W /\ s' = 0 /\ p' = 0 /\ bad' = ""
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
