---------------------------- MODULE UploaderTrace ----------------------------
(* The uploader program as a machine fed one input line at a time.  State: the  *)
(* lists it knows and their local copies, when it may download again, the modem *)
(* statistics (a window of updates), and the SondeHub records owed.  Time is in *)
(* quarter seconds.  badU: C18 (what a line makes it do); badR: C19 (refresh).  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
T == INSTANCE Text
Crc == INSTANCE Crc
File == JsonDeserialize(IOEnv.TRACE)
Recs == File.recs
W == 8
VARIABLES l, i, known, cust, locp, locc, next, now, win, st, owed, badU, badR
vars == <<l, i, known, cust, locp, locc, next, now, win, st, owed, badU, badR>>
R(n) == Recs[n]
Fn(sq) == [x \in {sq[k][1] : k \in DOMAIN sq} |-> LET K == {k \in DOMAIN sq : sq[k][1] = x} IN sq[CHOOSE k \in K : \A m \in K : m <= k][2]]
Over(new, old) == [x \in DOMAIN new \cup DOMAIN old |-> IF x \in DOMAIN new THEN new[x] ELSE old[x]]
Unknown == <<85,78,75,78,79,87,78,95,80,65,89,76,79,65,68,95,73,68>>
Downloaded(e, what) == \E k \in DOMAIN e.gets : e.gets[k] = what
(* what initialising a list gives: [known, local copy] *)
After(g, lo, page, got) == IF got /\ page.k = "ok" THEN [g |-> Over(Fn(page.l), g), lo |-> page]
                           ELSE [g |-> IF lo.k = "ok" THEN Over(Fn(lo.l), g) ELSE g, lo |-> lo]
NoStats == [snr4 |-> -3996, sum |-> 0, n |-> 1, sp |-> 0]
Start(n) ==
  IF n > Len(Recs) THEN [known |-> Fn(File.defaults), cust |-> <<>>, locp |-> 0, locc |-> 0, t0 |-> 0, badU |-> "", badR |-> ""]
  ELSE LET c == R(n).cfg
           e == R(n).start
           P == After(Fn(File.defaults), R(n).locp, R(n).net.pl, Downloaded(e, "pl"))
           Q == After(<<>>, R(n).locc, R(n).net.cf, Downloaded(e, "cf"))
       IN [known |-> IF c.rtty THEN Fn(File.defaults) ELSE P.g, cust |-> IF c.rtty THEN <<>> ELSE Q.g, locp |-> P.lo, locc |-> Q.lo, t0 |-> R(n).t0,
           badR |-> IF (c.rtty \/ c.nodl) /\ e.gets # <<>> THEN "lists are downloaded at the start although that was not wanted"
                    ELSE IF ~c.rtty /\ ~c.nodl /\ (Len(e.gets) # 2 \/ Range(e.gets) # {"pl", "cf"}) THEN "the lists are not downloaded at the start" ELSE "",
           badU |-> IF e.udp # <<>> \/ e.log # <<>> THEN "output before any input" ELSE ""]
Init == /\ l \in 1..W /\ i = 0
        /\ LET s == Start(l) IN known = s.known /\ cust = s.cust /\ locp = s.locp /\ locc = s.locc /\ next = s.t0 /\ now = s.t0 /\ badU = s.badU /\ badR = s.badR
        /\ win = <<>> /\ st = NoStats /\ owed = <<>>

C == R(l).cfg
X == R(l).ev[i + 1]          \* what was seen to happen
F == R(l).facts[i + 1]       \* what the line is

(* -- refreshing the lists -- *)
Id(k) == IF F.id \in DOMAIN k THEN k[F.id] ELSE Unknown
WantsRefresh == F.kind = "bin" /\ Id(known) = Unknown /\ ~C.nodl
t1 == now + F.tick
NewPl == After(known, locp, F.net.pl, TRUE)
NewCf == After(cust, locc, F.net.cf, TRUE)
Known2 == IF Downloaded(X, "pl") THEN NewPl.g ELSE known
Cust2 == IF Downloaded(X, "cf") THEN NewCf.g ELSE cust
RefreshWhy ==
  IF X.gets = <<>> THEN (IF WantsRefresh /\ t1 > next THEN "the lists are not refreshed for an unknown payload ID" ELSE "")
  ELSE IF ~WantsRefresh THEN "the lists are downloaded without an unknown payload ID"
  ELSE IF t1 < next THEN "the lists are downloaded again within 30 minutes"
  ELSE IF Len(X.gets) # 2 \/ Range(X.gets) # {"pl", "cf"} THEN "a refresh does not download both lists once" ELSE ""

(* -- statistics -- *)
Win2 == SelectSeq(Append(win, [t |-> t1, snr4 |-> F.snr4, sp |-> (F.f[Len(F.f)] - F.f[1]) \div (Len(F.f) - 1)]), LAMBDA s : s.t > t1 - 16)
Sum(q, op(_)) == FoldLeft(LAMBDA a, s : a + op(s), 0, q)
Stats2 == [snr4 |-> FoldLeft(LAMBDA a, s : IF s.snr4 > a THEN s.snr4 ELSE a, Win2[1].snr4, Win2),
           sum |-> Sum(F.f, LAMBDA x : x), n |-> Len(F.f), sp |-> Sum(Win2, LAMBDA s : s.sp) \div Len(Win2)]
Freq == C.freq + (st.sum \div st.n)

(* -- outputs -- *)
Keys(q) == {q[k][1] : k \in DOMAIN q}
Val(q, key) == q[CHOOSE k \in DOMAIN q : q[k][1] = key][2]
IsInt(v, n) == v.t = "i" /\ v.hi = n \div 65536 /\ v.lo = n % 65536
IsMicro(v, m) == \/ v.t = "f" /\ v.ip >= 0 /\ v.ip < 2000 /\ (IF v.neg THEN -(v.ip * 1000000 + v.fp) ELSE v.ip * 1000000 + v.fp) = m
                 \/ v.t = "i" /\ v.hi \in -1..0 /\ (m % 1000000) = 0 /\ v.hi * 65536 + v.lo = m \div 1000000
IsText(v, c) == v.t = "s" /\ v.c = c
Has(q, key, P(_)) == key \in Keys(q) /\ P(Val(q, key))
IsFreq(v) == v.t = "f" /\ ~v.neg /\ v.ip = Freq \div 1000000 /\ v.fp = Freq % 1000000
Call == IF F.kind = "bin" THEN Id(Known2) ELSE F.call
Tagged == F.kind = "bin" /\ F.cb >= 0 /\ Call \in DOMAIN Cust2
IsPacket == F.kind \in {"bin", "v3", "text"} /\ ~(Tagged /\ Cust2[Call] = "")     \* "": its custom fields cannot be decoded
TagOk(q) == Tagged => Has(q, Cust2[Call], LAMBDA v : IsInt(v, F.cb))
Common(q, kCall, kLat, kLon, kAlt) ==
   /\ Has(q, kCall, LAMBDA v : IsText(v, Call))
   /\ Has(q, kLat, LAMBDA v : IsMicro(v, F.lat6)) /\ Has(q, kLon, LAMBDA v : IsMicro(v, F.lon6))
   /\ Has(q, kAlt, LAMBDA v : IsInt(v, F.alt))
   /\ IF C.freq >= 0 THEN Has(q, "frequency", IsFreq) ELSE "frequency" \notin Keys(q)
   /\ TagOk(q)
(* the UDP summary *)
SendsUdp == IsPacket /\ ~(F.lat6 = 0 /\ F.lon6 = 0) /\ F.alt # -1000 /\ ~F.plan.create
Expect == IF ~SendsUdp THEN <<>> ELSE IF F.plan.bfail THEN <<"broadcast", "local">> ELSE <<"broadcast">>
UdpOk(s) == /\ s.port = C.port
            /\ Common(s.json, "callsign", "latitude", "longitude", "altitude")
            /\ Has(s.json, "time", LAMBDA v : IsText(v, F.time))
            /\ Has(s.json, "snr", LAMBDA v : IsMicro(v, st.snr4 * 250000))
(* the log line *)
Prefix == <<36, 36>> \o Call \o <<44>> \o T!NatText(F.seq) \o <<44>> \o F.time \o <<44>>
LogOk(q) == CASE F.kind = "text" -> q = <<36, 36>> \o F.body
              [] F.kind = "v3" -> q # <<>> /\ q[1] = 123
              [] OTHER -> LET s == T!LastIndex(q, 42) IN
                          /\ Len(q) > Len(Prefix) + 5 /\ SubSeq(q, 1, Len(Prefix)) = Prefix
                          /\ s = Len(q) - 4 /\ SubSeq(q, s + 1, Len(q)) = T!Hex4(Crc!Crc16(SubSeq(q, 3, s - 1)))
(* the SondeHub record *)
Uploads == IsPacket /\ ~C.noupload /\ Call # Unknown /\ F.alt # -1000 /\ F.skew \in -719..719 /\ (F.kind = "v3" => F.via # "nohub")
Owe == [call |-> Call, seq |-> F.seq, lat6 |-> F.lat6, lon6 |-> F.lon6, alt |-> F.alt, snr4 |-> st.snr4, freq |-> IF C.freq >= 0 THEN Freq ELSE -1, sp |-> st.sp,
        raw |-> IF F.kind = "text" THEN F.raw ELSE F.hexu, tag |-> IF Tagged THEN Cust2[Call] ELSE "", cb |-> IF Tagged THEN F.cb ELSE 0]
Mhz(v, f) == v.t = "f" /\ ~v.neg /\ v.ip = f \div 1000000 /\ v.fp = f % 1000000
Repaid(q, o) ==
   /\ Has(q, "payload_callsign", LAMBDA v : IsText(v, o.call)) /\ Has(q, "frame", LAMBDA v : IsInt(v, o.seq))
   /\ Has(q, "lat", LAMBDA v : IsMicro(v, o.lat6)) /\ Has(q, "lon", LAMBDA v : IsMicro(v, o.lon6)) /\ Has(q, "alt", LAMBDA v : IsInt(v, o.alt))
   /\ IF o.snr4 > -400 THEN Has(q, "snr", LAMBDA v : IsMicro(v, o.snr4 * 250000)) ELSE "snr" \notin Keys(q)
   /\ IF o.freq >= 0 THEN Has(q, "frequency", LAMBDA v : Mhz(v, o.freq)) ELSE "frequency" \notin Keys(q)
   /\ IF o.sp > 0 THEN Has(q, "tone_spacing", LAMBDA v : IsInt(v, o.sp)) ELSE "tone_spacing" \notin Keys(q)
   /\ IF C.baud > 0 THEN Has(q, "baud_rate", LAMBDA v : IsInt(v, C.baud)) ELSE "baud_rate" \notin Keys(q)
   /\ Has(q, "raw", LAMBDA v : IsText(v, o.raw))
   /\ o.tag # "" => Has(q, o.tag, LAMBDA v : IsInt(v, o.cb))

LineWhy ==
  IF [k \in DOMAIN X.udp |-> X.udp[k].to] # Expect THEN (IF IsPacket THEN "a packet is not sent by UDP exactly once" ELSE "something is sent by UDP for a line that is no packet")
  ELSE IF \E k \in DOMAIN X.udp : ~UdpOk(X.udp[k]) THEN "the UDP summary does not hold the packet's values"
  ELSE IF C.log = "file" /\ (X.torn \/ Len(X.log) # (IF IsPacket THEN 1 ELSE 0)) THEN "not exactly one log line for each packet"
  ELSE IF C.log = "file" /\ IsPacket /\ ~LogOk(X.log[1]) THEN "the log line is not the packet's"
  ELSE ""
Line ==
  /\ l <= Len(Recs) /\ i < Len(R(l).ev) /\ i' = i + 1 /\ l' = l
  /\ now' = t1
  /\ known' = Known2 /\ cust' = Cust2
  /\ locp' = (IF Downloaded(X, "pl") THEN NewPl.lo ELSE locp) /\ locc' = (IF Downloaded(X, "cf") THEN NewCf.lo ELSE locc)
  /\ next' = (IF X.gets # <<>> THEN t1 + 7200 ELSE next)
  /\ IF F.kind = "stats" THEN win' = Win2 /\ st' = Stats2 ELSE UNCHANGED <<win, st>>
  /\ owed' = IF Uploads THEN Append(owed, Owe) ELSE owed
  /\ badU' = LineWhy /\ badR' = RefreshWhy
EndWhy == IF R(l).end # "normal" THEN "the program did not end normally: " \o R(l).end
          ELSE IF R(l).threads # 0 THEN "a thread is still running after the end"
          ELSE IF ~R(l).shape THEN "an upload is not a JSON list"
          ELSE IF Len(R(l).up) # Len(owed) THEN "not every packet (or more than once) was uploaded: " \o ToString(Len(R(l).up)) \o " of " \o ToString(Len(owed))
          ELSE IF \E k \in DOMAIN owed : ~Repaid(R(l).up[k], owed[k]) THEN "an uploaded record does not hold its packet's values, or is out of order"
          ELSE ""
End == /\ l <= Len(Recs) /\ i = Len(R(l).ev) /\ i' = i + 1 /\ l' = l /\ badU' = EndWhy
       /\ UNCHANGED <<known, cust, locp, locc, next, now, win, st, owed, badR>>
NextRec == /\ l <= Len(Recs) /\ i = Len(R(l).ev) + 1 /\ l' = l + W /\ i' = 0
           /\ LET s == Start(l + W) IN known' = s.known /\ cust' = s.cust /\ locp' = s.locp /\ locc' = s.locc /\ next' = s.t0 /\ now' = s.t0 /\ badU' = s.badU /\ badR' = s.badR
           /\ win' = <<>> /\ st' = NoStats /\ owed' = <<>>
Next == (Line \/ End \/ NextRec)
Handled == badU = ""
Refreshed == badR = ""
==============================================================================
