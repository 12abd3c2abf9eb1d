---------------------------- MODULE SondehubTrace ----------------------------
(* Conversion of telemetry to SondeHub records: which telemetry is plausible,  *)
(* and what its record holds.                                                  *)
EXTENDS Calendar, Text, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

Num(c) == 10 * (c[1] - 48) + (c[2] - 48)
Hms(c) == <<Num(SubSeq(c, 1, 2)), Num(SubSeq(c, 4, 5)), Num(SubSeq(c, 7, 8))>>
Sec(t) == 3600 * t[1] + 60 * t[2] + t[3]
Has(r, k) == k \in DOMAIN r.tel
Time(r) == Hms(r.tel.time.c)
Shift(r) == DayShift(Time(r)[1], r.clk[4])
(* payload minus receiver clock, in whole seconds before the clock's microseconds are taken off *)
Skew(r) == Sec(Time(r)) - Sec(SubSeq(r.clk, 4, 6)) + 86400 * Shift(r)
TimeClose(r) == Skew(r) <= 180 /\ (Skew(r) > -180 \/ (Skew(r) = -180 /\ r.us = 0))
Plausible(r) ==
  /\ Has(r, "via") => r.tel.via.s = "sondehub"
  /\ TimeClose(r) \/ ~r.chk
  /\ r.tel.callsign.s # "UNKNOWN_PAYLOAD_ID"
  /\ Has(r, "altitude")

(* numbers *)
Above(x, neg, ip, fp) == IF x.t = "i" THEN LET n == x.hi * 65536 + x.lo IN IF neg THEN n > -ip \/ (n = -ip /\ fp > 0) ELSE n > ip
                         ELSE IF neg THEN ~x.neg \/ x.ip < ip \/ (x.ip = ip /\ x.fp < fp) ELSE ~x.neg /\ (x.ip > ip \/ (x.ip = ip /\ x.fp > fp))
NotNegative(x) == IF x.t = "i" THEN x.hi >= 0 ELSE ~x.neg \/ (x.ip = 0 /\ x.fp = 0)
TempValid(x) == Above(x, TRUE, 273, 150000)
SnrValid(x) == Above(x, TRUE, 100, 0)
(* a frequency in Hz (below 2 GHz) as MHz *)
MhzFits(x, f) == x.t = "f" /\ (IF f.t = "i" THEN LET n == f.hi * 65536 + f.lo IN Abs((x.ip - (n \div 1000000)) * 1000000 + x.fp - (n % 1000000)) <= 1
                               ELSE Abs((x.ip - (f.ip \div 1000000)) * 1000000 + x.fp - (f.ip % 1000000)) <= 1)

Renamed == [payload_callsign |-> "callsign", frame |-> "sequence_number", lat |-> "latitude", lon |-> "longitude", alt |-> "altitude"]
Optional == [sats |-> "satellites", speed |-> "speed", vel_h |-> "vel_h", vel_v |-> "vel_v", tone_spacing |-> "tone_spacing", raw |-> "raw",
             modulation |-> "modulation", modulation_detail |-> "modulation_detail", baud_rate |-> "baud_rate"]
Customs(r) == { k \in { r.custom[i] : i \in DOMAIN r.custom } : Has(r, k) }
Keys(r) ==
  DOMAIN r.meta \cup {"datetime"} \cup DOMAIN Renamed \cup { k \in DOMAIN Optional : Has(r, Optional[k]) } \cup Customs(r)
  \cup (IF Has(r, "temperature") /\ TempValid(r.tel.temperature) THEN {"temp"} ELSE {})
  \cup (IF Has(r, "battery_voltage") /\ NotNegative(r.tel.battery_voltage) THEN {"batt"} ELSE {})
  \cup (IF Has(r, "snr") /\ SnrValid(r.tel.snr) THEN {"snr"} ELSE {})
  \cup (IF Has(r, "f_centre") THEN {"frequency"} ELSE {})

Four(n) == TwoDigits(n \div 100) \o TwoDigits(n % 100)
Stamp(r) == LET d == Resolve(SubSeq(r.clk, 1, 3), Time(r)[1], r.clk[4])
            IN Four(d[1]) \o <<Dash>> \o TwoDigits(d[2]) \o <<Dash>> \o TwoDigits(d[3]) \o <<84>> \o r.tel.time.c
Unchanged(r, k, src) == r.rec[k].r = r.tel[src].r
RecordFits(r) ==
  /\ DOMAIN r.rec = Keys(r)
  /\ \A k \in DOMAIN r.meta \ (Customs(r) \cup DOMAIN Renamed \cup DOMAIN Optional) : r.rec[k].r = r.meta[k].r
  /\ LET c == r.rec.datetime.c IN Len(c) >= 20 /\ SubSeq(c, 1, 19) = Stamp(r) /\ c[Len(c)] = 90
  /\ \A k \in DOMAIN Renamed : Unchanged(r, k, Renamed[k])
  /\ \A k \in DOMAIN Optional \ Customs(r) : Has(r, Optional[k]) => Unchanged(r, k, Optional[k])
  /\ "temp" \in DOMAIN r.rec => Unchanged(r, "temp", "temperature")
  /\ "batt" \in DOMAIN r.rec => Unchanged(r, "batt", "battery_voltage")
  /\ "snr" \in DOMAIN r.rec => Unchanged(r, "snr", "snr")
  /\ "frequency" \in DOMAIN r.rec => MhzFits(r.rec.frequency, r.tel.f_centre)
  /\ \A k \in Customs(r) : Unchanged(r, k, k)

Explains(r) ==
  /\ r.kept                                              \* the caller's telemetry is left as it was
  /\ IF ~(Has(r, "time") /\ Has(r, "callsign")) THEN r.res # "record"
     ELSE IF Plausible(r) THEN r.res = "record" /\ RecordFits(r) ELSE r.res = "none"
Accepted == l <= Len(Recs) => Explains(Recs[l])
=============================================================================
