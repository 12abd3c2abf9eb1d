------------------------------ MODULE UdpTrace ------------------------------
(* What leaves the machine for one telemetry record.  A record is sent once: to *)
(* the broadcast address, and to localhost exactly when that fails.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
T == INSTANCE Text
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, st
R == Recs[l]
Keys(q) == {q[k][1] : k \in DOMAIN q}
Val(q, key) == q[CHOOSE k \in DOMAIN q : q[k][1] = key][2]
Txt(q, key) == q[CHOOSE k \in DOMAIN q : q[k][1] = key][3]
IsZero(v) == (v.t = "i" /\ v.hi = 0 /\ v.lo = 0) \/ (v.t = "f" /\ v.r \in {"0.0", "-0.0"})
(* the numbers the specification itself writes *)
Whole(n) == [t |-> "i", hi |-> IF n < 0 THEN -1 ELSE 0, lo |-> IF n < 0 THEN 65536 + n ELSE n]
Is(v, n) == v.t = "i" /\ v.hi = Whole(n).hi /\ v.lo = Whole(n).lo
TRec == R.telem
Needed == IF R.fn = "modem" THEN {} ELSE IF R.fn = "summary" THEN {"callsign", "latitude", "longitude", "altitude", "time"} ELSE {"time", "latitude", "longitude", "altitude"}
HasAll == Needed \subseteq Keys(TRec)
NoPosition == R.fn = "summary" /\ {"latitude", "longitude"} \subseteq Keys(TRec) /\ IsZero(Val(TRec, "latitude")) /\ IsZero(Val(TRec, "longitude"))
ToSend == HasAll /\ ~NoPosition /\ ~R.create

(* field of the summary <- field of the record *)
Source(f) == CASE f = "sats" -> "satellites" [] f = "batt_voltage" -> "battery_voltage" [] OTHER -> f
Plain == {"callsign", "latitude", "longitude", "altitude", "time"}
Optional == {"sats", "batt_voltage", "speed"}
Customs == {n \in {R.names[k] : k \in DOMAIN R.names} : n \in Keys(TRec)}
Expected == Plain \cup Optional \cup {"type", "heading", "temp", "comment"} \cup Customs
            \cup (IF "snr" \in Keys(TRec) THEN {"snr"} ELSE {}) \cup (IF "f_centre" \in Keys(TRec) THEN {"frequency"} ELSE {})
Same(a, b) == a.t = b.t /\ (CASE a.t = "i" -> a.hi = b.hi /\ a.lo = b.lo [] a.t = "f" -> a.r = b.r [] a.t = "s" -> a.c = b.c [] OTHER -> a = b)
(* f_centre in Hz, shown in MHz *)
Mhz(v, hz) == LET n == hz.hi * 65536 + hz.lo IN v.t = "f" /\ v.ip = n \div 1000000 /\ v.fp = (n % 1000000) /\ (v.neg => n = 0)
FieldOk(q, f) ==
   LET v == Val(q, f) IN
   CASE f \in Customs -> Same(v, Val(TRec, f))
     [] f = "type" -> v.t = "s" /\ v.s = "PAYLOAD_SUMMARY"
     [] f = "comment" -> v.t = "s" /\ v.c = R.comment
     [] f \in {"heading", "temp"} -> Is(v, -1)
     [] f = "frequency" -> Mhz(v, Val(TRec, "f_centre"))
     [] f \in Optional -> IF Source(f) \in Keys(TRec) THEN Same(v, Val(TRec, Source(f))) ELSE Is(v, -1)
     [] OTHER -> Same(v, Val(TRec, f))
SummaryOk(s) == /\ s.isjson /\ Keys(s.json) = Expected /\ Len(s.json) = Cardinality(Expected)
                /\ \A f \in Expected : FieldOk(s.json, f)
(* TELEMETRY,time,lat,lon,alt\n *)
Prefix == <<84,69,76,69,77,69,84,82,89>>
FixedOf(q, v) == IF v.t = "f" THEN T!FixedFits(q, 5, v.neg, v.ip, v.fp) ELSE T!FixedFits(q, 5, v.hi < 0, T!Abs(v.hi * 65536 + v.lo), 0)
OziOk(s) ==
   /\ s.codes # <<>> /\ s.codes[Len(s.codes)] = 10
   /\ LET f == T!Split(SubSeq(s.codes, 1, Len(s.codes) - 1), 44) IN
      /\ Len(f) = 5 /\ f[1] = Prefix /\ f[2] = Txt(TRec, "time")
      /\ FixedOf(f[3], Val(TRec, "latitude")) /\ FixedOf(f[4], Val(TRec, "longitude"))
      /\ f[5] = Txt(TRec, "altitude")
(* modem statistics: the whole dictionary *)
ModemOk(s) == s.isjson /\ Keys(s.json) = Keys(TRec) /\ Len(s.json) = Len(TRec) /\ \A f \in Keys(TRec) : Txt(s.json, f) = Txt(TRec, f)
Content(s) == IF R.fn = "modem" THEN ModemOk(s) ELSE IF R.fn = "summary" THEN SummaryOk(s) ELSE OziOk(s)
Expect == IF ~ToSend THEN <<>> ELSE IF R.bfail THEN <<"broadcast", "local">> ELSE <<"broadcast">>
Why == IF R.raised # "" THEN "an exception reached the caller"
       ELSE IF ~R.same THEN "the record was changed"
       ELSE IF R.odd THEN (IF Cardinality({k \in DOMAIN R.sends : R.sends[k].ok}) > 1 THEN "sent twice" ELSE "")
       ELSE IF [k \in DOMAIN R.sends |-> R.sends[k].to] # Expect THEN "not sent exactly once, to the broadcast address or else to localhost"
       ELSE IF \E k \in DOMAIN R.sends : R.sends[k].port # R.port THEN "sent to another port"
       ELSE IF \E k \in DOMAIN R.sends : ~Content(R.sends[k]) THEN "the datagram does not hold the record's values"
       ELSE ""
Init == l \in 1..W /\ st = ""
Next == l <= Len(Recs) /\ l + W <= Len(Recs) /\ l' = l + W /\ st' = ""
Accepted == l <= Len(Recs) => Why = ""
=============================================================================
