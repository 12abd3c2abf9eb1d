----------------------------- MODULE UkhasTrace -----------------------------
(* The UKHAS sentence parser as a partial function from texts (character codes)*)
(* to reports.  Canonical sentences must be accepted with their own values,     *)
(* texts that are not sentences must be refused with ValueError, and where the  *)
(* format leaves a freedom (numbers in unusual notations, text before the       *)
(* sentence or after a second '*') either is allowed - but never wrong values.  *)
EXTENDS Crc, Text, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

Space(c) == c \in 9..13 \cup 28..32
FirstInk(q) == FoldLeft(LAMBDA a, i : IF a = 0 /\ ~Space(q[i]) THEN i ELSE a, 0, [i \in DOMAIN q |-> i])
LastInk(q) == FoldLeft(LAMBDA a, i : IF ~Space(q[i]) THEN i ELSE a, 0, [i \in DOMAIN q |-> i])
Strip(q) == IF FirstInk(q) = 0 THEN <<>> ELSE SubSeq(q, FirstInk(q), LastInk(q))
Ascii(q) == \A i \in DOMAIN q : q[i] < 128

(* ------------------------------------------------------------ the sentence *)
Start(s) == LastIndex(s, DollarC)
After(s) == SubSeq(s, Start(s) + 1, Len(s))
StarAt(s) == FirstIndex(After(s), Star)
Body(s) == SubSeq(After(s), 1, StarAt(s) - 1)
Rest(s) == SubSeq(After(s), StarAt(s) + 1, Len(After(s)))
CrcText(s) == LET e == FirstIndex(Rest(s), Star) IN IF e = 0 THEN Rest(s) ELSE SubSeq(Rest(s), 1, e - 1)
Intact(s) == StarAt(s) > 0 /\ Ascii(Body(s)) /\ CrcText(s) = Hex4(Crc16(Body(s)))
OnlyDollars(q) == \A i \in DOMAIN q : q[i] = DollarC
Canonical(s) == Start(s) > 0 /\ OnlyDollars(SubSeq(s, 1, Start(s))) /\ FirstIndex(Rest(s), Star) = 0 /\ Ascii(s)

(* --------------------------------------------------- numbers, three classes *)
Unsigned(q) == IF q # <<>> /\ q[1] = Dash THEN Tail(q) ELSE q
Neg(q) == q # <<>> /\ q[1] = Dash
PlainInt(q) == AllDigits(Unsigned(q))
IntClass(q) == IF PlainInt(q) THEN "plain"
               ELSE IF (\A i \in DOMAIN q : ~IsDigit(q[i])) \/ (\E i \in DOMAIN q : ~(IsDigit(q[i]) \/ Space(q[i]) \/ q[i] \in {43, 45, 46, 95})) THEN "bad"
               ELSE "open"
PlainReal(q) == LET u == Unsigned(q)  d == FirstIndex(u, Dot) IN
                IF d = 0 THEN AllDigits(u) ELSE AllDigits(SubSeq(u, 1, d - 1)) /\ AllDigits(SubSeq(u, d + 1, Len(u)))
RealClass(q) == IF PlainReal(q) THEN "plain"
                ELSE IF (\A i \in DOMAIN q : ~IsDigit(q[i])) \/ (\E i \in DOMAIN q : ~(IsDigit(q[i]) \/ Space(q[i]) \/ q[i] \in {43, 45, 46, 95, 69, 101})) THEN "bad"
                ELSE "open"
DropZeros(q) == LET k == FoldLeft(LAMBDA a, i : IF a = 0 /\ q[i] # 48 THEN i ELSE a, 0, [i \in DOMAIN q |-> i])
                IN IF k = 0 THEN <<48>> ELSE SubSeq(q, k, Len(q))
IntVal(q) == DropZeros(Unsigned(q))               \* magnitude, as text without leading zeros
Whole(q) == LET u == Unsigned(q)  d == FirstIndex(u, Dot) IN DropZeros(IF d = 0 THEN u ELSE SubSeq(u, 1, d - 1))
Frac(q) == LET u == Unsigned(q)  d == FirstIndex(u, Dot) IN IF d = 0 THEN <<>> ELSE SubSeq(u, d + 1, Len(u))
DegIn(q) == Len(Whole(q)) <= 3 /\ (ValOf(Whole(q)) < 180 \/ (ValOf(Whole(q)) = 180 /\ \A i \in DOMAIN Frac(q) : Frac(q)[i] = 48))
Micro(q) == LET f == Frac(q) IN ValOf([i \in 1..6 |-> IF i <= Len(f) THEN f[i] ELSE 48])
DegOut(q) == Len(Whole(q)) > 3 \/ ValOf(Whole(q)) > 180 \/ (ValOf(Whole(q)) = 180 /\ Micro(q) > 0)
AltIn(q) == Len(IntVal(q)) <= 5 /\ ValOf(IntVal(q)) <= 65535 /\ (Neg(q) => IntVal(q) = <<48>>)

(* ------------------------------------------------------------ the time *)
TimeDigits(q) == IF Len(q) = 8 /\ q[3] = Colon /\ q[6] = Colon THEN SubSeq(q, 1, 2) \o SubSeq(q, 4, 5) \o SubSeq(q, 7, 8) ELSE IF Len(q) = 6 THEN q ELSE <<>>
TimeIn(d) == ValOf(SubSeq(d, 1, 2)) < 24 /\ ValOf(SubSeq(d, 3, 4)) < 60 /\ ValOf(SubSeq(d, 5, 6)) < 60
TimeClass(q) == IF AllDigits(TimeDigits(q)) THEN (IF TimeIn(TimeDigits(q)) THEN "plain" ELSE "bad")
                ELSE IF q = <<>> \/ (\A i \in DOMAIN q : ~IsDigit(q[i])) \/ (\E i \in DOMAIN q : ~(IsDigit(q[i]) \/ q[i] = Colon)) \/ Len(q) > 8
                        \/ Len(SelectSeq(q, LAMBDA c : c = Colon)) > 2 THEN "bad"
                ELSE "open"
TimeText(d) == SubSeq(d, 1, 2) \o <<Colon>> \o SubSeq(d, 3, 4) \o <<Colon>> \o SubSeq(d, 5, 6)

(* ------------------------------------------------------------ verdict *)
MustRefuse(s) ==
  \/ ~Intact(s)
  \/ LET f == Split(Body(s), Comma) IN
     \/ Len(f) < 6
     \/ IntClass(f[2]) = "bad" \/ TimeClass(f[3]) = "bad" \/ RealClass(f[4]) = "bad" \/ RealClass(f[5]) = "bad" \/ IntClass(f[6]) = "bad"
     \/ (PlainReal(f[4]) /\ DegOut(f[4])) \/ (PlainReal(f[5]) /\ DegOut(f[5])) \/ (PlainInt(f[6]) /\ ~AltIn(f[6]))
MustAccept(s) ==
  /\ ~MustRefuse(s) /\ Canonical(s)
  /\ LET f == Split(Body(s), Comma) IN PlainInt(f[2]) /\ TimeClass(f[3]) = "plain" /\ PlainReal(f[4]) /\ DegIn(f[4]) /\ PlainReal(f[5]) /\ DegIn(f[5]) /\ PlainInt(f[6])

IntFits(x, q) == x.t \in {"i", "I"} /\ x.c = (IF Neg(q) /\ IntVal(q) # <<48>> THEN <<Dash>> ELSE <<>>) \o IntVal(q)
RealFits(x, q) == x.t = "f" /\ Abs(x.ip - ValOf(Whole(q))) <= 1 /\ Abs((x.ip - ValOf(Whole(q))) * 1000000 + x.fp - Micro(q)) <= 1
                  /\ ((x.ip # 0 \/ x.fp # 0) => (x.neg <=> Neg(q)))
RealSane(x) == x.t = "f" /\ x.ip \in 0..180
ReportFits(r, s) ==
  LET f == Split(Body(s), Comma) IN
  /\ r.callsign = f[1] /\ r.raw = s
  /\ PlainInt(f[2]) => IntFits(r.seq, f[2])
  /\ TimeClass(f[3]) = "plain" => r.time = TimeText(TimeDigits(f[3]))
  /\ IF PlainReal(f[4]) THEN RealFits(r.lat, f[4]) ELSE RealSane(r.lat)
  /\ IF PlainReal(f[5]) THEN RealFits(r.lon, f[5]) ELSE RealSane(r.lon)
  /\ PlainInt(f[6]) => IntFits(r.alt, f[6])
  /\ r.alt.t = "i"

(* a report made by decode_packet and what parsing its sentence gave *)
Near(a, b) == a.t = "f" /\ b.t = "f" /\ Abs(a.ip - b.ip) <= 1 /\ Abs((a.ip - b.ip) * 1000000 + a.fp - b.fp) <= 6 /\ ((a.ip # 0 \/ a.fp > 6) => (a.neg <=> b.neg))
RoundTrip(r) ==
  "of" \in DOMAIN r =>
     /\ r.res = "ok"
     /\ r.callsign = r.of.callsign /\ r.time = r.of.time
     /\ r.seq.c = r.of.seq.c /\ r.alt.c = r.of.alt.c
     /\ Near(r.lat, r.of.lat) /\ Near(r.lon, r.of.lon)

Explains(r) ==
  LET s == Strip(r.t) IN
  /\ r.res \in {"ok", "ValueError"}
  /\ MustRefuse(s) => r.res = "ValueError"
  /\ MustAccept(s) => r.res = "ok"
  /\ r.res = "ok" => ReportFits(r, s)
  /\ RoundTrip(r)
Accepted == l <= Len(Recs) => Explains(Recs[l])
==============================================================================
