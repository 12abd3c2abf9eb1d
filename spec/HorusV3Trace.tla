----------------------------- MODULE HorusV3Trace -----------------------------
(* A decoder listening to v3 packets of several payloads, one after the other.   *)
(* Its only memory is the names last announced for each payload's sensor         *)
(* positions.  One record per listening session: the packets (all octets, the       *)
(* leading checksum included) and what decode_packet returned for each.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
V == INSTANCE HorusV3
T == INSTANCE Text
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLES l, k, names, bad
vars == <<l, k, names, bad>>
S == Recs[l].steps
P == S[k + 1]

(* ----------------------------------------------------------- expected fields *)
(* a field is [key (codes), value]; values: [t |-> "i", w] integer as minimal two's complement octets,                *)
(* "d" decimal n / 10^p, "s" text (codes), "b" boolean, "r" real                                                       *)
Str(s) == [t |-> "s", c |-> s]
TInt(n) == [t |-> "n", n |-> n]
TWide(w) == [t |-> "i", w |-> w]
TDec(n, p) == [t |-> "d", n |-> n, p |-> p]
C(key, v) == [key |-> key, v |-> v, custom |-> TRUE]
F(key, v) == [key |-> key, v |-> v, custom |-> FALSE]
Opt(o, f) == IF o = <<>> THEN <<>> ELSE <<f>>
k_payload_id == <<112,97,121,108,111,97,100,95,105,100>>
k_callsign == <<99,97,108,108,115,105,103,110>>
k_sequence_number == <<115,101,113,117,101,110,99,101,95,110,117,109,98,101,114>>
k_time == <<116,105,109,101>>
k_latitude == <<108,97,116,105,116,117,100,101>>
k_longitude == <<108,111,110,103,105,116,117,100,101>>
k_altitude == <<97,108,116,105,116,117,100,101>>
k_satellites == <<115,97,116,101,108,108,105,116,101,115>>
k_speed == <<115,112,101,101,100>>
k_ascent_rate == <<97,115,99,101,110,116,95,114,97,116,101>>
k_ext_pressure == <<101,120,116,95,112,114,101,115,115,117,114,101>>
k_ext_humidity == <<101,120,116,95,104,117,109,105,100,105,116,121>>
k_temps == <<<<116,101,109,112,101,114,97,116,117,114,101>>,
             <<101,120,116,95,116,101,109,112,101,114,97,116,117,114,101>>,
             <<116,101,109,112,101,114,97,116,117,114,101,95,99,117,115,116,111,109,95,49>>,
             <<116,101,109,112,101,114,97,116,117,114,101,95,99,117,115,116,111,109,95,50>>>>
k_volts == <<<<98,97,116,116,101,114,121,95,118,111,108,116,97,103,101>>,
             <<115,111,108,97,114,95,118,111,108,116,97,103,101>>,
             <<99,117,115,116,111,109,49,95,118,111,108,116,97,103,101>>,
             <<99,117,115,116,111,109,50,95,118,111,108,116,97,103,101>>>>
k_psm == <<103,110,115,115,95,112,111,119,101,114,95,115,97,118,101,95,115,116,97,116,101>>
k_count == <<99,111,117,110,116,95>>
k_custom == <<99,117,115,116,111,109,95,100,97,116,97>>
k_via == <<118,105,97>>
PsmNames == <<<<112,115,109,78,111,116,65,99,116,105,118,101>>, <<101,110,97,98,108,101,100>>, <<97,99,113,117,105,115,105,116,105,111,110>>,
              <<116,114,97,99,107,105,110,103>>, <<111,112,116,105,109,105,115,101,100>>, <<105,110,97,99,116,105,118,101>>>>
ViaName(n) == CASE n = 0 -> <<115,111,110,100,101,104,117,98>> [] n = 1 -> <<110,111,104,117,98>> [] OTHER -> <<117,110,107,110,111,119,110>>
Unknown == <<117,110,107,110,111,119,110>>
Lower(q) == [i \in DOMAIN q |-> IF q[i] \in 65..90 THEN q[i] + 32 ELSE q[i]]
Clock(t) == LET s == (t % 86400) IN T!TwoDigits(s \div 3600) \o <<58>> \o T!TwoDigits((s \div 60) % 60) \o <<58>> \o T!TwoDigits(s % 60)
Sep == <<95>>
SensorFields(nm, i, v) ==           \* i counts from 0
   LET base == nm \o Sep \o T!NatText(i) IN
   CASE v.kind = "str" -> <<C(base, Str(v.v))>>
     [] v.kind = "int" -> [j \in DOMAIN v.v |-> C(base \o Sep \o T!NatText(j - 1), TWide(V!Shorten(v.v[j])))]
     [] v.kind = "real" -> [j \in DOMAIN v.v |-> C(base \o Sep \o T!NatText(j - 1), [t |-> "r", x |-> v.v[j]])]
     [] OTHER -> [j \in 1..8 |-> C(base \o Sep \o <<98, 47 + j>>, [t |-> "b", v |-> v.v[j]])]
(* the name under which sensor i of a payload is reported, given what has been announced *)
Known(cache, call, i) == \E c \in cache : c.call = call /\ c.i = i
NameOf(cache, call, i) == IF Known(cache, call, i) THEN (CHOOSE c \in cache : c.call = call /\ c.i = i).name ELSE Unknown
Announce(cache, m) ==
   IF m.sensors = <<>> THEN cache ELSE
   LET q == m.sensors[1]
       new == {i \in DOMAIN q : q[i].name # <<>>} IN
   {c \in cache : ~(c.call = m.call /\ c.i + 1 \in new)} \cup {[call |-> m.call, i |-> i - 1, name |-> q[i].name[1]] : i \in new}
Fields(m, cache) ==                  \* cache: names known, including those announced by this packet
   <<F(k_payload_id, Str(m.call)), F(k_callsign, Str(m.call)), F(k_sequence_number, TInt(m.seq)),
     F(k_latitude, TDec(m.lat, 5)), F(k_longitude, TDec(m.lon, 5))>>
   \o (IF m.tod = -1 THEN <<>> ELSE <<F(k_time, Str(Clock(m.tod)))>>)
   \o (IF m.alt = -1000 THEN <<>> ELSE <<F(k_altitude, TInt(m.alt))>>)
   \o Opt(m.sats, F(k_satellites, TInt(m.sats[1]))) \o Opt(m.vel, F(k_speed, TInt(m.vel[1])))
   \o Opt(m.asc, C(k_ascent_rate, TDec(m.asc[1], 2))) \o Opt(m.press, C(k_ext_pressure, TDec(m.press[1], 1)))
   \o Opt(m.hum, C(k_ext_humidity, TInt(m.hum[1])))
   \o (IF m.temps = <<>> THEN <<>> ELSE V!Cat([i \in 1..4 |-> Opt(m.temps[1][i], [key |-> k_temps[i], v |-> TDec(m.temps[1][i][1], 1), custom |-> i # 1])]))
   \o (IF m.mv = <<>> THEN <<>> ELSE V!Cat([i \in 1..4 |-> Opt(m.mv[1][i], [key |-> k_volts[i], v |-> TDec(m.mv[1][i][1], 3), custom |-> i # 1])]))
   \o Opt(m.psm, C(k_psm, Str(PsmNames[m.psm[1] + 1])))
   \o (IF m.counts = <<>> THEN <<>> ELSE [i \in DOMAIN m.counts[1] |-> C(k_count \o T!NatText(i - 1), TWide(V!Shorten(m.counts[1][i])))])
   \o Opt(m.custom, C(k_custom, Str(Lower(T!HexOf(m.custom[1])))))
   \o Opt(m.via, F(k_via, Str(ViaName(m.via[1]))))
   \o (IF m.sensors = <<>> THEN <<>> ELSE V!Cat([i \in DOMAIN m.sensors[1] |->
         LET s == m.sensors[1][i] IN IF s.values = <<>> THEN <<>> ELSE SensorFields(NameOf(cache, m.call, i - 1), i - 1, s.values[1])]))

(* --------------------------------------------------------- what was reported *)
(* numbers come with their exact octets (integers), exact binary form and decimal view (reals) *)
Pow(p) == CASE p = 1 -> 10 [] p = 2 -> 100 [] p = 3 -> 1000 [] p = 5 -> 100000
ValOk(v, x) ==
   CASE v.t = "s" -> x.t = "s" /\ x.c = v.c
     [] v.t = "b" -> x.t = "b" /\ x.v = v.v
     [] v.t = "i" -> x.t = "i" /\ x.w = v.w
     [] v.t = "n" -> x.t = "i" /\ x.small /\ x.n = v.n
     [] v.t = "d" -> x.t = "f" /\ x.small /\ x.ip * 1000000 + x.fp = T!Abs(v.n) * (1000000 \div Pow(v.p)) /\ (v.n # 0 => x.neg = (v.n < 0))
     [] v.t = "r" -> x.t = "f" /\ (IF v.x.k \in {"zero", "nan"} THEN x.k = v.x.k ELSE [k |-> x.k, neg |-> x.neg, m |-> x.m, e |-> x.e] = [v.x EXCEPT !.m = V!NoZeros(@)])
     [] OTHER -> FALSE
(* bookkeeping, and the parts of the raw message that are kept as they are *)
Ignored == {"crc_ok", "packet_format", "raw", "ukhas_str", "modulation", "custom_field_names", "altitudeMeters", "extraSensors", "timeOfDaySeconds"}
Reported(x) == SelectSeq(x.fields, LAMBDA f : f.name \notin Ignored)
Keys(q) == {q[i].key : i \in DOMAIN q}
(* The text form of the packet (the line that goes to the log) carries the message under its ASN.1 names.  Leaves: paths and values. *)
Leaf(path, v) == [p |-> path, v |-> v]
TempNames == <<"internal", "external", "custom1", "custom2">>
VoltNames == <<"battery", "solar", "custom1", "custom2">>
FlagNames == <<"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7">>
Letters(kind) == <<104,111,114,117,115>> \o (CASE kind = "str" -> <<83,116,114>> [] kind = "int" -> <<73,110,116>> [] kind = "real" -> <<82,101,97,108>> [] OTHER -> <<66,111,111,108>>)
ValueLeaves(path, v) ==
   <<Leaf(path \o <<"0">>, Str(Letters(v.kind)))>> \o
   (CASE v.kind = "str" -> <<Leaf(path \o <<"1">>, Str(v.v))>>
     [] v.kind = "int" -> [j \in DOMAIN v.v |-> Leaf(path \o <<"1", ToString(j - 1)>>, TWide(V!Shorten(v.v[j])))]
     [] v.kind = "real" -> [j \in DOMAIN v.v |-> Leaf(path \o <<"1", ToString(j - 1)>>, [t |-> "r", x |-> v.v[j]])]
     [] OTHER -> [j \in 1..8 |-> Leaf(path \o <<"1", FlagNames[j]>>, [t |-> "b", v |-> v.v[j]])])
Leaves(m) ==
   <<Leaf(<<"payloadCallsign">>, Str(m.call)), Leaf(<<"sequenceNumber">>, TInt(m.seq)), Leaf(<<"timeOfDaySeconds">>, TInt(m.tod)),
     Leaf(<<"latitude">>, TInt(m.lat)), Leaf(<<"longitude">>, TInt(m.lon)), Leaf(<<"altitudeMeters">>, TInt(m.alt))>>
   \o Opt(m.vel, Leaf(<<"velocityHorizontalKilometersPerHour">>, TInt(m.vel[1]))) \o Opt(m.sats, Leaf(<<"gnssSatellitesVisible">>, TInt(m.sats[1])))
   \o Opt(m.asc, Leaf(<<"ascentRateCentimetersPerSecond">>, TInt(m.asc[1]))) \o Opt(m.press, Leaf(<<"pressurehPa-x10">>, TInt(m.press[1])))
   \o (IF m.temps = <<>> THEN <<>> ELSE V!Cat([i \in 1..4 |-> Opt(m.temps[1][i], Leaf(<<"temperatureCelsius-x10", TempNames[i]>>, TInt(m.temps[1][i][1])))]))
   \o Opt(m.hum, Leaf(<<"humidityPercentage">>, TInt(m.hum[1])))
   \o (IF m.mv = <<>> THEN <<>> ELSE V!Cat([i \in 1..4 |-> Opt(m.mv[1][i], Leaf(<<"milliVolts", VoltNames[i]>>, TInt(m.mv[1][i][1])))]))
   \o (IF m.counts = <<>> THEN <<>> ELSE [i \in DOMAIN m.counts[1] |-> Leaf(<<"counts", ToString(i - 1)>>, TWide(V!Shorten(m.counts[1][i])))])
   \o Opt(m.psm, Leaf(<<"gnssPowerSaveState">>, Str(PsmNames[m.psm[1] + 1]))) \o Opt(m.custom, Leaf(<<"customData">>, Str(Lower(T!HexOf(m.custom[1])))))
   \o Opt(m.via, Leaf(<<"via">>, Str(ViaName(m.via[1]))))
   \o (IF m.sensors = <<>> THEN <<>> ELSE V!Cat([i \in DOMAIN m.sensors[1] |-> LET s == m.sensors[1][i] IN
         Opt(s.name, Leaf(<<"extraSensors", ToString(i - 1), "name">>, Str(s.name[1])))
         \o (IF s.values = <<>> THEN <<>> ELSE ValueLeaves(<<"extraSensors", ToString(i - 1), "values">>, s.values[1]))]))
Logged(m, q) ==
   LET exp == Leaves(m) IN
   {q[i].p : i \in DOMAIN q} = {exp[i].p : i \in DOMAIN exp} /\ Len(q) = Len(exp)
   /\ \A i \in DOMAIN exp : ValOk(exp[i].v, q[CHOOSE j \in DOMAIN q : q[j].p = exp[i].p].v)
Bad(m, cache, x) ==
   LET exp == Fields(m, cache)
       rep == Reported(x)
       free == IF m.tod = -1 THEN {k_time} ELSE {}
       Get(key) == rep[CHOOSE i \in DOMAIN rep : rep[i].key = key] IN
   IF Keys(rep) \ free # Keys(exp) \ free THEN "the fields reported are not those the packet carries"
   ELSE IF Cardinality(Keys(exp)) # Len(exp) THEN ""                      \* two parts of the message share a name: not settled here
   ELSE IF \E i \in DOMAIN exp : ~ValOk(exp[i].v, Get(exp[i].key).v) THEN "a field does not have the value the packet encodes"
   ELSE IF V!Elems(x.customs) # {exp[i].key : i \in {j \in DOMAIN exp : exp[j].custom}} \/ Len(x.customs) # Cardinality(V!Elems(x.customs)) THEN "custom_field_names does not list the packet's additional fields"
   ELSE IF ~x.crc THEN "crc_ok is not reported" ELSE IF ~x.v3 THEN "the modulation is not reported as Horus Binary v3"
   ELSE IF x.rawc # T!HexOf(P.packet) THEN "raw is not the packet"
   \* packet_format is of this packet alone
   ELSE IF ~(V!Elems(x.format.fields) \subseteq Keys(rep)) \/ Cardinality(V!Elems(x.format.fields)) # x.format.n \/ x.format.length # Len(P.packet)
        THEN "packet_format does not describe the packet"
   ELSE IF ~x.log.ok THEN "the packet's text form is not a line of JSON" ELSE IF ~Logged(m, x.log.leaves) THEN "the packet's text form does not carry its message" ELSE ""
Body == SubSeq(P.packet, 3, Len(P.packet))
Outcome ==                            \* [bad, names]
   IF P.kind = "other" THEN [bad |-> "", names |-> names]                  \* a v1/v2 packet
   ELSE IF P.kind = "damaged" THEN [bad |-> IF P.out.ok THEN "a packet with a bad checksum was decoded" ELSE "", names |-> names]
   ELSE LET b == V!Octets(Body)
            r == V!Parse(b)
            v == V!Verdict(b)
            cache == Announce(names, r.msg) IN
        IF P.msg # <<>> /\ (v # "valid" \/ r.msg # P.msg[1] \/ (~P.loose /\ ~IsPrefix(V!Encode(P.msg[1]), Body)))
        THEN [bad |-> "HARNESS: the packet is not the encoding of its message", names |-> names]
        ELSE IF v = "open" THEN [bad |-> "", names |-> names]
        ELSE IF v = "invalid" THEN [bad |-> IF P.out.ok THEN "a message outside the documented ranges was accepted" ELSE "", names |-> names]
        ELSE IF ~P.out.ok THEN [bad |-> "a valid packet was rejected", names |-> names]
        ELSE [bad |-> Bad(r.msg, cache, P.out), names |-> cache]
Init == /\ l \in 1..(IF Len(Recs) < W THEN Len(Recs) ELSE W) /\ k = 0 /\ names = {} /\ bad = ""
Step == /\ k < Len(S) /\ bad = ""
        /\ LET o == Outcome IN bad' = o.bad /\ names' = o.names
        /\ k' = k + 1 /\ l' = l
NextRec == /\ k = Len(S) /\ bad = "" /\ l + W <= Len(Recs)
           /\ l' = l + W /\ k' = 0 /\ names' = {} /\ bad' = ""
Next == Step \/ NextRec
Accepted == bad = ""
===============================================================================
