------------------------------- MODULE HorusV3 -------------------------------
(* The Horus Binary v3 telemetry message and its unaligned packed encoding      *)
(* (X.691 UPER of HorusBinaryV3.asn1), both ways.                               *)
(* A message is a record; every optional part is a sequence of length 0 or 1.   *)
(* Unbounded integers are given by their two's complement octets, reals as      *)
(* kind, sign, odd mantissa octets and binary exponent.                         *)
EXTENDS Integers, Sequences, SequencesExt
Pow2(n) == CASE n = 0 -> 1 [] OTHER -> 2 ^ n
Bits(n, w) == [i \in 1..w |-> (n \div Pow2(w - i)) % 2]
Octets(q) == FoldLeft(LAMBDA a, o : a \o Bits(o, 8), <<>>, q)
Cat(qs) == FoldLeft(LAMBDA a, q : a \o q, <<>>, qs)
(* ------------------------------------------------------------- the alphabets *)
Digits == 48..57  Uppers == 65..90  Lowers == 97..122
CallAlphabet == <<45, 47>> \o [i \in 1..10 |-> 47 + i] \o [i \in 1..26 |-> 64 + i] \o [i \in 1..26 |-> 96 + i]
NameAlphabet == <<45>> \o [i \in 1..10 |-> 47 + i] \o [i \in 1..26 |-> 96 + i]
StrAlphabet == Digits \cup Uppers \cup Lowers \cup {95, 32, 43, 47, 61, 45, 46}
CallIndex == [c \in {CallAlphabet[i] : i \in DOMAIN CallAlphabet} |-> (CHOOSE i \in DOMAIN CallAlphabet : CallAlphabet[i] = c) - 1]
NameIndex == [c \in {NameAlphabet[i] : i \in DOMAIN NameAlphabet} |-> (CHOOSE i \in DOMAIN NameAlphabet : NameAlphabet[i] = c) - 1]
(* ------------------------------------------------------------------ encoding *)
Chars(q, index, w) == FoldLeft(LAMBDA a, c : a \o Bits(index[c], w), <<>>, q)
Text7(q) == FoldLeft(LAMBDA a, c : a \o Bits(c, 7), <<>>, q)
(* two's complement with as few octets as possible *)
RECURSIVE Shorten(_)
Shorten(q) == IF Len(q) > 1 /\ ((q[1] = 0 /\ q[2] < 128) \/ (q[1] = 255 /\ q[2] >= 128)) THEN Shorten(Tail(q)) ELSE q
RECURSIVE NoZeros(_)
NoZeros(q) == IF q # <<>> /\ q[1] = 0 THEN NoZeros(Tail(q)) ELSE q
Counted(q) == Octets(<<Len(q)>> \o q)
EncInt(q) == Counted(Shorten(q))
Exponent(e) == IF e \in -128..127 THEN <<(e + 256) % 256>> ELSE <<((e + 65536) % 65536) \div 256, (e + 65536) % 256>>
(* a real's contents; the mantissa has a leading zero octet when its top bit is set *)
RealOctets(x) == CASE x.k = "zero" -> <<>>
                   [] x.k = "inf" -> <<IF x.neg THEN 65 ELSE 64>>
                   [] x.k = "nan" -> <<66>>
                   [] OTHER -> LET m == NoZeros(x.m)  ex == Exponent(x.e) IN
                               <<128 + (IF x.neg THEN 64 ELSE 0) + Len(ex) - 1>> \o ex \o (IF m[1] >= 128 THEN <<0>> ELSE <<>>) \o m
EncReal(x) == Counted(RealOctets(x))
EncValues(v) == CASE v.kind = "str"  -> Bits(0, 2) \o Bits(Len(v.v), 8) \o Text7(v.v)
                  [] v.kind = "int"  -> Bits(1, 2) \o Bits(Len(v.v) - 1, 2) \o Cat([i \in DOMAIN v.v |-> EncInt(v.v[i])])
                  [] v.kind = "real" -> Bits(2, 2) \o Bits(Len(v.v) - 1, 2) \o Cat([i \in DOMAIN v.v |-> EncReal(v.v[i])])
                  [] OTHER           -> Bits(3, 2) \o [i \in 1..8 |-> IF v.v[i] THEN 1 ELSE 0]
EncSensor(s) == <<Len(s.name), Len(s.values)>>
                \o (IF s.name = <<>> THEN <<>> ELSE Bits(Len(s.name[1]) - 1, 5) \o Chars(s.name[1], NameIndex, 6))
                \o (IF s.values = <<>> THEN <<>> ELSE EncValues(s.values[1]))
EncOpt(o, lo, w) == IF o = <<>> THEN <<>> ELSE Bits(o[1] - lo, w)
EncGroup(g, lo, w) == [i \in 1..4 |-> Len(g[i])] \o Cat([i \in 1..4 |-> EncOpt(g[i], lo, w)])
PadTo8(q) == q \o [i \in 1..((8 - (Len(q) % 8)) % 8) |-> 0]
(* extension additions: via first, then additions of later versions as octet strings (<<>> = absent) *)
EncVia(n) == PadTo8(Bits(n, 3))
Additions(m) == LET via == IF m.via = <<>> THEN <<>> ELSE <<EncVia(m.via[1])>>
                IN <<via>> \o [i \in DOMAIN m.future |-> IF m.future[i] = <<>> THEN <<>> ELSE <<Octets(m.future[i][1])>>]
HasAdditions(m) == m.via # <<>> \/ \E i \in DOMAIN m.future : m.future[i] # <<>>
EncAdditions(m) == LET a == Additions(m) IN
   <<0>> \o Bits(Len(a) - 1, 6) \o [i \in DOMAIN a |-> Len(a[i])]
   \o Cat([i \in DOMAIN a |-> IF a[i] = <<>> THEN <<>> ELSE Bits(Len(a[i][1]) \div 8, 8) \o a[i][1]])
EncBits(m) ==
   <<IF HasAdditions(m) THEN 1 ELSE 0>>
   \o <<Len(m.sensors), Len(m.vel), Len(m.sats), Len(m.asc), Len(m.press), Len(m.temps), Len(m.hum), Len(m.mv), Len(m.counts), Len(m.psm), Len(m.custom)>>
   \o Bits(Len(m.call) - 1, 4) \o Chars(m.call, CallIndex, 6)
   \o Bits(m.seq, 16) \o Bits(m.tod + 1, 17) \o Bits(m.lat + 9000000, 25) \o Bits(m.lon + 18000000, 26) \o Bits(m.alt + 1000, 16)
   \o (IF m.sensors = <<>> THEN <<>> ELSE Bits(Len(m.sensors[1]) - 1, 2) \o Cat([i \in DOMAIN m.sensors[1] |-> EncSensor(m.sensors[1][i])]))
   \o EncOpt(m.vel, 0, 10) \o EncOpt(m.sats, 0, 5) \o EncOpt(m.asc, -32767, 16) \o EncOpt(m.press, 0, 14)
   \o (IF m.temps = <<>> THEN <<>> ELSE EncGroup(m.temps[1], -1023, 11))
   \o EncOpt(m.hum, 0, 7)
   \o (IF m.mv = <<>> THEN <<>> ELSE EncGroup(m.mv[1], 0, 14))
   \o (IF m.counts = <<>> THEN <<>> ELSE Bits(Len(m.counts[1]) - 1, 3) \o Cat([i \in DOMAIN m.counts[1] |-> EncInt(m.counts[1][i])]))
   \o EncOpt(m.psm, 0, 3)
   \o (IF m.custom = <<>> THEN <<>> ELSE Bits(Len(m.custom[1]), 8) \o Octets(m.custom[1]))
   \o (IF HasAdditions(m) THEN EncAdditions(m) ELSE <<>>)
ToOctets(b) == LET q == PadTo8(b) IN
   [i \in 1..(Len(q) \div 8) |-> 128*q[8*i-7] + 64*q[8*i-6] + 32*q[8*i-5] + 16*q[8*i-4] + 8*q[8*i-3] + 4*q[8*i-2] + 2*q[8*i-1] + q[8*i]]
Encode(m) == ToOctets(EncBits(m))

(* ------------------------------------------------------------------ decoding *)
(* Reading past the end gives zeros; the result says how far reading went.      *)
(* open: a form of encoding this specification does not settle.                 *)
Bit(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Rd(b, p, w) == FoldLeft(LAMBDA a, i : 2 * a + Bit(b, p + i), 0, [i \in 1..w |-> i])
RdOctets(b, p, n) == [i \in 1..n |-> Rd(b, p + 8 * (i - 1), 8)]
RdOpt(b, p, has, lo, w) == [v |-> IF has = 1 THEN <<Rd(b, p, w) + lo>> ELSE <<>>, p |-> IF has = 1 THEN p + w ELSE p]
Unpad(q) == Shorten(q)
RdInt(b, p) == LET n == Rd(b, p, 8) IN
   IF n = 0 \/ n > 127 THEN [v |-> <<0>>, p |-> p + 8, open |-> TRUE]
   ELSE [v |-> Shorten(RdOctets(b, p + 8, n)), p |-> p + 8 + 8 * n, open |-> FALSE]
Sign16(q) == LET n == IF Len(q) = 1 THEN q[1] ELSE 256 * q[1] + q[2] IN IF q[1] >= 128 THEN n - (IF Len(q) = 1 THEN 256 ELSE 65536) ELSE n
Zero == [k |-> "zero", neg |-> FALSE, m |-> <<>>, e |-> 0]
(* finite reals that a binary64 number holds exactly *)
BitLen(m) == 8 * (Len(m) - 1) + (CHOOSE n \in 1..8 : m[1] < 2^n /\ m[1] >= 2^(n-1))
Binary64(m, e) == BitLen(m) <= 53 /\ e >= -1074 /\ e + BitLen(m) <= 1024
RealOf(q) ==
   IF q = <<>> THEN [v |-> Zero, open |-> FALSE]
   ELSE IF q \in {<<64>>, <<65>>} THEN [v |-> [k |-> "inf", neg |-> q[1] = 65, m |-> <<>>, e |-> 0], open |-> FALSE]
   ELSE IF q = <<66>> THEN [v |-> [k |-> "nan", neg |-> FALSE, m |-> <<>>, e |-> 0], open |-> FALSE]
   ELSE IF q = <<67>> THEN [v |-> Zero, open |-> FALSE]                                \* minus zero
   ELSE LET x == (q[1] % 4) + 1
            m == NoZeros(SubSeq(q, 2 + x, Len(q)))
        IN IF q[1] \div 4 \notin {32, 48} \/ x > 2 \/ Len(q) < 2 + x \/ m = <<>> \/ m[Len(m)] % 2 = 0 \/ ~Binary64(m, Sign16(SubSeq(q, 2, 1 + x)))
           THEN [v |-> Zero, open |-> TRUE]
           ELSE [v |-> [k |-> "fin", neg |-> (q[1] \div 64) % 2 = 1, m |-> m, e |-> Sign16(SubSeq(q, 2, 1 + x))], open |-> FALSE]
RdReal(b, p) == LET n == Rd(b, p, 8) IN
   IF n > 127 THEN [v |-> Zero, p |-> p + 8, open |-> TRUE]
   ELSE LET r == RealOf(RdOctets(b, p + 8, n)) IN [v |-> r.v, p |-> p + 8 + 8 * n, open |-> r.open]
RdList(b, p, n, Op(_, _)) ==
   FoldLeft(LAMBDA s, i : LET x == Op(b, s.p) IN [v |-> Append(s.v, x.v), p |-> x.p, open |-> s.open \/ x.open],
            [v |-> <<>>, p |-> p, open |-> FALSE], [i \in 1..n |-> i])
RdValues(b, p) ==
   LET c == Rd(b, p, 2) IN
   CASE c = 0 -> LET n == Rd(b, p + 2, 8) IN [v |-> [kind |-> "str", v |-> [i \in 1..n |-> Rd(b, p + 10 + 7 * (i - 1), 7)]], p |-> p + 10 + 7 * n, open |-> FALSE]
     [] c = 1 -> LET r == RdList(b, p + 4, Rd(b, p + 2, 2) + 1, RdInt) IN [v |-> [kind |-> "int", v |-> r.v], p |-> r.p, open |-> r.open]
     [] c = 2 -> LET r == RdList(b, p + 4, Rd(b, p + 2, 2) + 1, RdReal) IN [v |-> [kind |-> "real", v |-> r.v], p |-> r.p, open |-> r.open]
     [] OTHER -> [v |-> [kind |-> "bool", v |-> [i \in 1..8 |-> Bit(b, p + 2 + i) = 1]], p |-> p + 10, open |-> FALSE]
RdChars(b, p, n, al) == [i \in 1..n |-> LET x == Rd(b, p + 6 * (i - 1), 6) + 1 IN IF x \in DOMAIN al THEN al[x] ELSE 0]
RdSensor(b, p) ==
   LET n == IF Bit(b, p + 1) = 1 THEN Rd(b, p + 2, 5) + 1 ELSE 0
       p1 == IF n = 0 THEN p + 2 ELSE p + 7 + 6 * n
       name == IF n = 0 THEN <<>> ELSE <<RdChars(b, p + 7, n, NameAlphabet)>>
       v == IF Bit(b, p + 2) = 1 THEN RdValues(b, p1) ELSE [v |-> <<>>, p |-> p1, open |-> FALSE]
   IN [v |-> [name |-> name, values |-> IF Bit(b, p + 2) = 1 THEN <<v.v>> ELSE <<>>], p |-> v.p, open |-> v.open]
RdGroup(b, p, lo, w) ==
   LET o == [i \in 1..4 |-> Bit(b, p + i)]
       at(i) == p + 4 + w * FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(o, 1, i - 1))
   IN [v |-> [i \in 1..4 |-> IF o[i] = 1 THEN <<Rd(b, at(i), w) + lo>> ELSE <<>>], p |-> at(5)]
RdAdditions(b, p) ==
   IF Bit(b, p + 1) = 1 THEN [via |-> <<>>, future |-> <<>>, p |-> p, open |-> TRUE] ELSE
   LET n == Rd(b, p + 1, 6) + 1
       has == [i \in 1..n |-> Bit(b, p + 7 + i)]
       r == FoldLeft(LAMBDA s, i : IF has[i] = 0 THEN [s EXCEPT !.v = Append(@, <<>>)] ELSE
                        LET k == Rd(b, s.p, 8) IN
                        IF k = 0 \/ k > 127 \/ s.p + 8 + 8 * k > Len(b) THEN [v |-> Append(s.v, <<>>), p |-> s.p + 8, open |-> TRUE]
                        ELSE [v |-> Append(s.v, <<RdOctets(b, s.p + 8, k)>>), p |-> s.p + 8 + 8 * k, open |-> s.open],
                     [v |-> <<>>, p |-> p + 7 + n, open |-> FALSE], [i \in 1..n |-> i])
   IN [via |-> IF r.v[1] = <<>> THEN <<>> ELSE <<r.v[1][1][1] \div 32>>, future |-> Tail(r.v), p |-> r.p,
       open |-> r.open \/ \A i \in 1..n : has[i] = 0]
Parse(b) ==
   LET o == [i \in 1..11 |-> Bit(b, 1 + i)]
       n == Rd(b, 12, 4) + 1
       p1 == 16 + 6 * n
       p2 == p1 + 100
       se == IF o[1] = 1 THEN RdList(b, p2 + 2, Rd(b, p2, 2) + 1, RdSensor) ELSE [v |-> <<>>, p |-> p2, open |-> FALSE]
       ve == RdOpt(b, se.p, o[2], 0, 10)      sa == RdOpt(b, ve.p, o[3], 0, 5)
       as == RdOpt(b, sa.p, o[4], -32767, 16) pr == RdOpt(b, as.p, o[5], 0, 14)
       te == IF o[6] = 1 THEN RdGroup(b, pr.p, -1023, 11) ELSE [v |-> <<>>, p |-> pr.p]
       hu == RdOpt(b, te.p, o[7], 0, 7)
       mi == IF o[8] = 1 THEN RdGroup(b, hu.p, 0, 14) ELSE [v |-> <<>>, p |-> hu.p]
       co == IF o[9] = 1 THEN RdList(b, mi.p + 3, Rd(b, mi.p, 3) + 1, RdInt) ELSE [v |-> <<>>, p |-> mi.p, open |-> FALSE]
       ps == RdOpt(b, co.p, o[10], 0, 3)
       cn == Rd(b, ps.p, 8)
       pc == IF o[11] = 1 THEN ps.p + 8 + 8 * cn ELSE ps.p
       ad == IF Bit(b, 1) = 1 THEN RdAdditions(b, pc) ELSE [via |-> <<>>, future |-> <<>>, p |-> pc, open |-> FALSE]
   IN [msg |-> [call |-> RdChars(b, 16, n, CallAlphabet), seq |-> Rd(b, p1, 16), tod |-> Rd(b, p1 + 16, 17) - 1,
                lat |-> Rd(b, p1 + 33, 25) - 9000000, lon |-> Rd(b, p1 + 58, 26) - 18000000, alt |-> Rd(b, p1 + 84, 16) - 1000,
                sensors |-> IF o[1] = 1 THEN <<se.v>> ELSE <<>>, vel |-> ve.v, sats |-> sa.v, asc |-> as.v, press |-> pr.v,
                temps |-> IF o[6] = 1 THEN <<te.v>> ELSE <<>>, hum |-> hu.v, mv |-> IF o[8] = 1 THEN <<mi.v>> ELSE <<>>,
                counts |-> IF o[9] = 1 THEN <<co.v>> ELSE <<>>, psm |-> ps.v,
                custom |-> IF o[11] = 1 THEN <<RdOctets(b, ps.p + 8, cn)>> ELSE <<>>, via |-> ad.via, future |-> ad.future],
       used |-> ad.p, open |-> se.open \/ co.open \/ ad.open]
(* ------------------------------------------------------------------- validity *)
InOpt(o, S) == o = <<>> \/ o[1] \in S
Elems(q) == {q[i] : i \in DOMAIN q}
(* numbers and sizes within the documented ranges *)
InRange(m) ==
   /\ Len(m.call) \in 1..15 /\ m.seq \in 0..65535 /\ m.tod \in -1..86400 /\ m.lat \in -9000000..9000000
   /\ m.lon \in -18000000..18000000 /\ m.alt \in -1000..50000
   /\ InOpt(m.vel, 0..512) /\ InOpt(m.sats, 0..31) /\ InOpt(m.asc, -32767..32767) /\ InOpt(m.press, 0..12000)
   /\ InOpt(m.hum, 0..100) /\ InOpt(m.psm, 0..5)
   /\ \A j \in DOMAIN m.temps : \A i \in 1..4 : InOpt(m.temps[j][i], -1023..1023)
   /\ \A j \in DOMAIN m.sensors : \A i \in DOMAIN m.sensors[j] : \A nm \in Elems(m.sensors[j][i].name) : Len(nm) <= 20
(* characters of the permitted alphabets *)
InAlphabet(m) ==
   /\ \A c \in Elems(m.call) : c # 0
   /\ \A j \in DOMAIN m.sensors : \A i \in DOMAIN m.sensors[j] : LET x == m.sensors[j][i] IN
         /\ \A nm \in Elems(x.name) : \A c \in Elems(nm) : c # 0
         /\ \A v \in Elems(x.values) : v.kind = "str" => \A c \in Elems(v.v) : c \in StrAlphabet
(* "valid", "invalid" or "open" *)
Verdict(b) == LET r == Parse(b) IN
   IF r.open THEN "open"
   ELSE IF r.used > Len(b) \/ ~InRange(r.msg) THEN "invalid"
   ELSE IF InAlphabet(r.msg) THEN "valid" ELSE "open"
==============================================================================
