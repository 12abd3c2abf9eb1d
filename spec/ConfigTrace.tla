----------------------------- MODULE ConfigTrace -----------------------------
(* The station configuration: the file read line by line (sections, options,    *)
(* comments, continued values), then what the uploader must do with it: use the *)
(* values as given in everything it sends, or refuse to start.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
T == INSTANCE Text
Recs == JsonDeserialize(IOEnv.TRACE)
W == 8
VARIABLES l, i, sec, opt, ind, have, seen, err, bad
vars == <<l, i, sec, opt, ind, have, seen, err, bad>>
R == Recs[l]

(* -- characters -- *)
White == {32, 9, 13, 11, 12}
RECURSIVE LStrip(_), RStrip(_)
LStrip(q) == IF q # <<>> /\ q[1] \in White THEN LStrip(Tail(q)) ELSE q
RStrip(q) == IF q # <<>> /\ q[Len(q)] \in White \cup {10} THEN RStrip(SubSeq(q, 1, Len(q) - 1)) ELSE q
Strip(q) == RStrip(LStrip(q))
Lower(q) == [k \in DOMAIN q |-> IF q[k] \in 65..90 THEN q[k] + 32 ELSE q[k]]
None == <<-1>>                      \* no section yet / no option yet
Default == <<68,69,70,65,85,76,84>>
User == <<117,115,101,114>>
Udp == <<104,111,114,117,115,95,117,100,112>>
Callsign == <<99,97,108,108,115,105,103,110>>
StLat == <<115,116,97,116,105,111,110,95,108,97,116>>
StLon == <<115,116,97,116,105,111,110,95,108,111,110>>
Radio == <<114,97,100,105,111,95,99,111,109,109,101,110,116>>
Antenna == <<97,110,116,101,110,110,97,95,99,111,109,109,101,110,116>>
OziPort == <<111,122,105,109,117,120,95,112,111,114,116>>
SumPort == <<115,117,109,109,97,114,121,95,112,111,114,116>>

(* -- one line of the file -- *)
Line == R.lines[i + 1]
Value == Strip(Line)
Indent == Len(Line) - Len(LStrip(Line))
IsNote == Value # <<>> /\ Value[1] \in {35, 59}
Close == T!LastIndex(Value, 93)
IsSection == Value # <<>> /\ Value[1] = 91 /\ Close > 2
Delims == {k \in DOMAIN Value : Value[k] \in {61, 58}}
Delim == IF Delims = {} THEN 0 ELSE CHOOSE k \in Delims : \A m \in Delims : k <= m
Key == Lower(RStrip(SubSeq(Value, 1, Delim - 1)))
Given(s, k) == <<s, k>> \in DOMAIN have
Put(s, k, v) == [p \in DOMAIN have \cup {<<s, k>>} |-> IF p = <<s, k>> THEN v ELSE have[p]]
Read ==
  /\ l <= Len(Recs) /\ i < Len(R.lines) /\ i' = i + 1 /\ l' = l /\ bad' = ""
  /\ IF Value = <<>> \/ IsNote
     THEN /\ have' = IF Value = <<>> /\ opt # None THEN Put(sec, opt, Append(have[<<sec, opt>>], 10)) ELSE have
          /\ UNCHANGED <<sec, opt, ind, seen, err>>
     ELSE IF opt # None /\ Indent > ind
     THEN /\ have' = Put(sec, opt, have[<<sec, opt>>] \o <<10>> \o Value)
          /\ UNCHANGED <<sec, opt, ind, seen, err>>
     ELSE /\ ind' = Indent
          /\ IF IsSection
             THEN LET s == SubSeq(Value, 2, Close - 1) IN
                  /\ sec' = s /\ opt' = None /\ have' = have
                  /\ err' = (err \/ (s # Default /\ s \in seen)) /\ seen' = seen \cup {s}
             ELSE IF sec = None \/ Delim <= 1
             THEN err' = TRUE /\ UNCHANGED <<sec, opt, have, seen>>
             ELSE /\ opt' = Key /\ err' = (err \/ Given(sec, Key)) /\ have' = Put(sec, Key, Strip(SubSeq(Value, Delim + 1, Len(Value))))
                  /\ UNCHANGED <<sec, seen>>

(* -- what the values mean -- *)
Has(s, k) == s \in seen /\ (Given(s, k) \/ Given(Default, k))
Get(s, k) == RStrip(IF Given(s, k) THEN have[<<s, k>>] ELSE have[<<Default, k>>])
Unsigned(q) == IF q # <<>> /\ q[1] \in {43, 45} THEN Tail(q) ELSE q
Dot(q) == T!FirstIndex(q, 46)
Whole(q) == IF Dot(q) = 0 THEN q ELSE SubSeq(q, 1, Dot(q) - 1)
Frac(q) == IF Dot(q) = 0 THEN <<>> ELSE SubSeq(q, Dot(q) + 1, Len(q))
IsInt(q) == T!AllDigits(Unsigned(q))
IsReal(q) == LET u == Unsigned(q) IN /\ T!AllDigits(Whole(u) \o Frac(u))
Zero(q) == \A k \in DOMAIN q : q[k] \in {43, 45, 46, 48}
Neg(q) == q # <<>> /\ q[1] = 45
Micro(q) == LET f == Frac(Unsigned(q)) IN T!ValOf(SubSeq(f \o <<48,48,48,48,48,48>>, 1, 6))
Valid == /\ R.file /\ ~err
         /\ \A k \in {Callsign, StLat, StLon, Radio, Antenna} : Has(User, k)
         /\ \A k \in {OziPort, SumPort} : Has(Udp, k) /\ IsInt(Get(Udp, k))
         /\ \A k \in {StLat, StLon} : IsReal(Get(User, k))
(* a value sent is the number in the text (to a millionth) *)
Is(v, q) == \/ v.t = "f" /\ (v.ip # 0 \/ v.fp > 1 => v.neg = Neg(q)) /\ v.ip >= 0
               /\ T!Abs((v.ip - T!ValOf(Whole(Unsigned(q)))) * 1000000 + v.fp - Micro(q)) <= 1
            \/ v.t = "i" /\ T!AllDigits(Unsigned(q)) /\ v.hi * 65536 + v.lo = (IF Neg(q) THEN -T!ValOf(Unsigned(q)) ELSE T!ValOf(Unsigned(q)))
Three(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Target == LET k == (R.target + 500) \div 1000 IN
          IF R.target < 0 THEN <<>> ELSE <<32, 40>> \o T!NatText(k \div 1000) \o <<46>> \o Three(k % 1000) \o <<32,77,72,122,41>>
Station(x) ==
   IF x.call # Get(User, Callsign) THEN "the callsign"
   ELSE IF Zero(Get(User, StLat)) /\ Zero(Get(User, StLon))
        THEN (IF x.pos # <<>> THEN "no position (0, 0)" ELSE "")
   ELSE IF Len(x.pos) < 2 THEN "the position"
   ELSE IF ~Is(x.pos[1], Get(User, StLat)) \/ ~Is(x.pos[2], Get(User, StLon)) THEN "the position"
   ELSE ""
Comments(x) == IF x.radio # Get(User, Radio) \o Target THEN "the radio comment" ELSE IF x.ant # Get(User, Antenna) THEN "the antenna comment" ELSE ""
Wrong(q) == LET B == {k \in DOMAIN q : Station(q[k]) # "" \/ Comments(q[k]) # ""} IN
            IF B = {} THEN "" ELSE LET x == q[CHOOSE k \in B : TRUE] IN IF Station(x) # "" THEN Station(x) ELSE Comments(x)
Port == T!ValOf(Unsigned(Get(Udp, SumPort)))
Why ==
  IF ~Valid THEN (IF R.end = "normal" \/ R.end = "exit 0" \/ R.end = "exit None" THEN "it runs with an unusable configuration"
                  ELSE IF ~R.exits THEN "it ends with an exception for an unusable configuration: " \o R.end
                  ELSE IF R.read > 0 \/ R.udp # <<>> \/ R.put # <<>> \/ R.info # <<>> THEN "it does something before refusing an unusable configuration" ELSE "")
  ELSE IF R.end # "normal" THEN "it does not run with a usable configuration: " \o R.end
  ELSE IF R.noupload /\ (R.put # <<>> \/ R.info # <<>>) THEN "it uploads although that was not wanted"
  ELSE IF ~R.noupload /\ (Len(R.put) # 1 \/ R.info = <<>>) THEN "the packet or the station information is not uploaded"
  ELSE IF Wrong(R.info) # "" THEN "the station information does not carry " \o Wrong(R.info) \o " of the configuration"
  ELSE IF Wrong(R.put) # "" THEN "an uploaded packet does not carry " \o Wrong(R.put) \o " of the configuration"
  ELSE IF R.udp # <<Port>> THEN "the packet is not sent to the configured UDP port"
  ELSE ""
Judge == /\ l <= Len(Recs) /\ i = Len(R.lines) /\ i' = i + 1 /\ l' = l /\ bad' = Why
         /\ UNCHANGED <<sec, opt, ind, have, seen, err>>
Fresh == sec' = None /\ opt' = None /\ ind' = 0 /\ have' = [p \in {} |-> 0] /\ seen' = {Default} /\ err' = FALSE /\ bad' = ""
NextRec == /\ l <= Len(Recs) /\ i = Len(R.lines) + 1 /\ l' = l + W /\ i' = 0 /\ Fresh
Init == /\ l \in 1..W /\ i = 0
        /\ sec = None /\ opt = None /\ ind = 0 /\ have = [p \in {} |-> 0] /\ seen = {Default} /\ err = FALSE /\ bad = ""
Next == Read \/ Judge \/ NextRec
UsedAsGiven == bad = ""
==============================================================================
