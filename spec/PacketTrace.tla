----------------------------- MODULE PacketTrace -----------------------------
(* The packet decoder as a function from received bytes to a report, for the   *)
(* fixed layout formats (v1, v2, 16 byte) and the choice between formats.      *)
(* Every record is one call of the real decode_packet: the bytes, the lists in *)
(* force, and what came back.                                                  *)
EXTENDS Crc, Text, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
Lists == JsonDeserialize(IOEnv.LISTS)    \* sequence of [ids |-> <<[id, name, text]>>, custom |-> [callsign |-> <<[n, ty, f]>>]]
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

(* ------------------------------------------------------------ the formats *)
F(n, k, o) == [n |-> n, k |-> k, o |-> o]
Layout(fmt) ==
  CASE fmt = "horus_binary_v1" ->
         <<F("payload_id", "id8", 0), F("sequence_number", "u16", 1), F("time", "hms", 3), F("latitude", "deg", 6), F("longitude", "deg", 10),
           F("altitude", "u16", 14), F("speed", "u8", 16), F("satellites", "u8", 17), F("temperature", "s8", 18), F("battery_voltage", "batt", 19)>>
    [] fmt = "horus_binary_v2_32byte" ->
         <<F("payload_id", "id16", 0), F("sequence_number", "u16", 2), F("time", "hms", 4), F("latitude", "deg", 7), F("longitude", "deg", 11),
           F("altitude", "u16", 15), F("speed", "u8", 17), F("satellites", "u8", 18), F("temperature", "s8", 19), F("battery_voltage", "batt", 20)>>
    [] fmt = "horus_binary_v2_16byte" ->
         <<F("payload_id", "id8", 0), F("sequence_number", "u8", 1), F("time", "bisec", 2), F("latitude", "fix3", 4), F("longitude", "fix3", 7),
           F("altitude", "u16", 10), F("battery_voltage", "batt", 12), F("flags", "u8", 13)>>
FmtLen(fmt) == CASE fmt = "horus_binary_v1" -> 22 [] fmt = "horus_binary_v2_32byte" -> 32 [] fmt = "horus_binary_v2_16byte" -> 16
FmtOfLen(n) == CASE n = 22 -> "horus_binary_v1" [] n = 32 -> "horus_binary_v2_32byte" [] n = 16 -> "horus_binary_v2_16byte" [] OTHER -> "none"
Modulation(fmt) == CASE fmt = "horus_binary_v1" -> "Horus Binary v1" [] fmt = "horus_binary_v3" -> "Horus Binary v3" [] OTHER -> "Horus Binary v2"
CustomOffset == 21

(* which format a packet is taken for: "reject" when none *)
Format(r) ==
  IF r.fmt = "" THEN IF Len(r.data) < 3 THEN "reject" ELSE IF HeadOk(r.data) THEN "horus_binary_v3" ELSE
                     LET f == FmtOfLen(Len(r.data)) IN IF f = "none" \/ ~(r.ign \/ TailOk(r.data)) THEN "reject" ELSE f
  ELSE IF r.fmt = "horus_binary_v3" THEN IF Len(r.data) >= 3 /\ (HeadOk(r.data) \/ r.ign) THEN r.fmt ELSE "reject"
  ELSE IF Len(r.data) = FmtLen(r.fmt) /\ (TailOk(r.data) \/ r.ign) THEN r.fmt ELSE "reject"

(* ------------------------------------------------------------ field kinds *)
S8(b) == IF b >= 128 THEN b - 256 ELSE b
S16(n) == IF n >= 32768 THEN n - 65536 ELSE n
F32Mag(B, o) == B[o+1] + 256 * B[o+2] + 65536 * B[o+3] + 16777216 * (B[o+4] % 128)
F32NaN(B, o) == F32Mag(B, o) > 2139095040            \* 0x7F800000
DegOk(B, o) == F32Mag(B, o) <= 1127481344            \* 180.0, which excludes infinities and NaNs
HmsOk(B, o) == B[o+1] < 24 /\ B[o+2] < 60 /\ B[o+3] < 60
Fix3(B, o) == LET v == B[o+1] + 256 * B[o+2] + 65536 * B[o+3] IN (IF v >= 8388608 THEN v - 16777216 ELSE v)    \* times 256e-7 degrees
Fix3Ok(B, o) == Abs(Fix3(B, o)) <= 7031250           \* 180 degrees

IsInt(x, n) == x.t = "i" /\ x.hi * 65536 + x.lo = n
IsWide(x, hi, lo) == x.t = "i" /\ x.hi = hi /\ x.lo = lo
NearDec(x, neg, ip, fp) == x.t = "f" /\ Abs((x.ip - ip) * 1000000 + x.fp - fp) <= 1 /\ Abs(x.ip - ip) <= 1 /\ ((ip # 0 \/ fp # 0) => (x.neg <=> neg))
IsF32(x, B, o) == x.t = "f" /\ (IF F32NaN(B, o) THEN x.ip = -1 ELSE x.b = SubSeq(B, o + 1, o + 4))
Div(n, d) == LET f == n \div d  m == n % d IN       \* floors; n may be -2^31
   IF n >= 0 THEN [neg |-> FALSE, ip |-> f, fp |-> m * (1000000 \div d)]
   ELSE IF m = 0 THEN [neg |-> TRUE, ip |-> -f, fp |-> 0] ELSE [neg |-> TRUE, ip |-> -f - 1, fp |-> (d - m) * (1000000 \div d)]
Batt(n) == LET m == (2 * Abs(n) * 1000000 + 51) \div 102 IN [neg |-> n < 0, ip |-> m \div 1000000, fp |-> m % 1000000]   \* n / 51, 8 bit n

IdName(ls, id) == LET h == { i \in DOMAIN ls.ids : ls.ids[i].id = id } IN IF h = {} THEN "UNKNOWN_PAYLOAD_ID" ELSE ls.ids[CHOOSE i \in h : TRUE].name
UnknownText == <<85,78,75,78,79,87,78,95,80,65,89,76,79,65,68,95,73,68>>
IdText(ls, id) == LET h == { i \in DOMAIN ls.ids : ls.ids[i].id = id } IN IF h = {} THEN UnknownText ELSE ls.ids[CHOOSE i \in h : TRUE].text

HmsText(h, m, s) == TwoDigits(h) \o <<Colon>> \o TwoDigits(m) \o <<Colon>> \o TwoDigits(s)

(* may a field of kind k be read from B at o? *)
FieldOk(k, B, o) ==
  CASE k = "hms" -> HmsOk(B, o) [] k = "bisec" -> U16(B, o) <= 43200
    [] k = "deg" -> DegOk(B, o) [] k = "fix3" -> Fix3Ok(B, o)
    [] k = "bad" -> FALSE [] OTHER -> TRUE
IntOf(k, B, o) == CASE k \in {"u8", "u8d10", "u8d100", "batt", "id8"} -> B[o+1]
                    [] k \in {"s8", "s8d10", "s8d100", "sbatt", "ids8"} -> S8(B[o+1])
                    [] k \in {"u16", "u16d10", "u16d100", "id16"} -> U16(B, o)
                    [] k \in {"s16", "s16d10", "s16d100"} -> S16(U16(B, o))
                    [] k \in {"s32d10", "s32d100"} -> U16(B, o) + 65536 * S16(U16(B, o + 2))
(* is (value x, text q) what kind k reads from B at o? *)
FieldFits(ls, k, B, o, x, q) ==
  CASE k \in {"u8", "s8", "u16", "s16"} -> LET n == IntOf(k, B, o) IN IsInt(x, n) /\ q = IntText(n)
    [] k = "u32" -> LET hi == U16(B, o + 2)  lo == U16(B, o) IN IsWide(x, hi, lo) /\ q = WideText(hi, lo)
    [] k = "s32" -> LET hi == S16(U16(B, o + 2))  lo == U16(B, o) IN IsWide(x, hi, lo) /\ q = WideText(hi, lo)
    [] k \in {"id8", "id16", "ids8"} -> x.t = "s" /\ x.s = IdName(ls, IntOf(k, B, o)) /\ q = IdText(ls, IntOf(k, B, o))
    [] k = "hms" -> x.t = "s" /\ x.c = HmsText(B[o+1], B[o+2], B[o+3]) /\ q = x.c
    [] k = "bisec" -> LET s == (2 * U16(B, o)) % 86400 IN x.t = "s" /\ x.c = HmsText(s \div 3600, (s \div 60) % 60, s % 60) /\ q = x.c
    [] k = "deg" -> IsF32(x, B, o) /\ FixedFits(q, 5, x.neg, x.ip, x.fp)
    [] k = "f32" -> IsF32(x, B, o) /\ (x.ip >= 0 => FixedFits(q, 6, x.neg, x.ip, x.fp))
    [] k = "fix3" -> LET v == Fix3(B, o)  n == Abs(v) * 128 + 2
                         m == n \div 5                               \* |v| * 256e-7 degrees in millionths = |v| * 25.6
                     IN NearDec(x, v < 0, m \div 1000000, m % 1000000) /\ FixedFits(q, 5, x.neg, x.ip, x.fp)
    [] k \in {"batt", "sbatt"} -> LET d == Batt(IntOf(k, B, o)) IN NearDec(x, d.neg, d.ip, d.fp) /\ FixedFits(q, 2, x.neg, x.ip, x.fp)
    [] k \in {"u8d10", "s8d10", "u16d10", "s16d10", "s32d10"} -> LET d == Div(IntOf(k, B, o), 10) IN NearDec(x, d.neg, d.ip, d.fp) /\ FixedFits(q, 1, d.neg, d.ip, d.fp)
    [] k \in {"u8d100", "s8d100", "u16d100", "s16d100", "s32d100"} -> LET d == Div(IntOf(k, B, o), 100) IN NearDec(x, d.neg, d.ip, d.fp) /\ FixedFits(q, 2, d.neg, d.ip, d.fp)

(* -------------------------------------------------- custom field lists *)
CodeSize(c) == CASE c \in {"b", "B", "x"} -> 1 [] c \in {"h", "H"} -> 2 [] c = "3s" -> 3 [] c \in {"i", "I", "f"} -> 4
CustomKind(ty, c) ==
  CASE ty = "none" -> (CASE c = "b" -> "s8" [] c = "B" -> "u8" [] c = "h" -> "s16" [] c = "H" -> "u16" [] c = "i" -> "s32" [] c = "I" -> "u32" [] c = "f" -> "f32" [] c = "3s" -> "bad")
    [] ty = "battery_5v_byte" -> (CASE c = "B" -> "batt" [] c = "b" -> "sbatt" [] OTHER -> "bad")
    [] ty = "divide_by_10" -> (CASE c = "b" -> "s8d10" [] c = "B" -> "u8d10" [] c = "h" -> "s16d10" [] c = "H" -> "u16d10" [] c = "i" -> "s32d10" [] OTHER -> "bad")
    [] ty = "divide_by_100" -> (CASE c = "b" -> "s8d100" [] c = "B" -> "u8d100" [] c = "h" -> "s16d100" [] c = "H" -> "u16d100" [] c = "i" -> "s32d100" [] OTHER -> "bad")
    [] ty = "degree_float" -> IF c = "f" THEN "deg" ELSE "bad"
    [] ty = "degree_fixed3" -> IF c = "3s" THEN "fix3" ELSE "bad"
    [] ty = "time_hms" -> IF c = "3s" THEN "hms" ELSE "bad"
    [] ty = "time_biseconds" -> IF c = "H" THEN "bisec" ELSE "bad"
    [] ty = "payload_id" -> (CASE c = "B" -> "id8" [] c = "b" -> "ids8" [] c = "H" -> "id16" [] OTHER -> "bad")
    [] OTHER -> "bad"
(* a definition: f is the sequence of struct codes, n/ty name and type the non-pad ones *)
Sized(def) == FoldLeft(LAMBDA a, c : a + CodeSize(c), 0, def.f) = 9
CustomFields(def) ==
  LET idx == SelectSeq([i \in DOMAIN def.f |-> i], LAMBDA i : def.f[i] # "x")
      off(i) == FoldLeft(LAMBDA a, c : a + CodeSize(c), 0, SubSeq(def.f, 1, i - 1))
  IN [j \in DOMAIN idx |-> F(def.n[j], CustomKind(def.ty[j], def.f[idx[j]]), CustomOffset + off(idx[j]))]
Counted(def) == Len(def.n) = Len(SelectSeq(def.f, LAMBDA c : c # "x"))
Definition(ls, call) == IF call \in DOMAIN ls.custom THEN ls.custom[call] ELSE ls.custom["4FSKTEST-V2"]

(* ------------------------------------------------------------ the report *)
Fields(r, fmt) ==
  LET base == Layout(fmt) IN
  IF fmt # "horus_binary_v2_32byte" THEN base
  ELSE base \o CustomFields(Definition(Lists[r.ls], IdName(Lists[r.ls], U16(r.data, 0))))
Readable(r, fmt) ==
  /\ \A i \in DOMAIN Layout(fmt) : FieldOk(Layout(fmt)[i].k, r.data, Layout(fmt)[i].o)
  /\ fmt = "horus_binary_v2_32byte" =>
       LET def == Definition(Lists[r.ls], IdName(Lists[r.ls], U16(r.data, 0))) IN
       /\ Sized(def) /\ Counted(def)
       /\ \A i \in DOMAIN CustomFields(def) : FieldOk(CustomFields(def)[i].k, r.data, CustomFields(def)[i].o)

SentenceFits(r, fs) ==
  LET q == r.text  st == LastIndex(q, Star)
      body == SubSeq(q, 3, st - 1)
      parts == Split(body, Comma)
  IN /\ st > 2 /\ SubSeq(q, 1, 2) = <<DollarC, DollarC>>
     /\ SubSeq(q, st + 1, Len(q)) = Hex4(Crc16(body))
     /\ Len(parts) = Len(fs)
     /\ \A i \in DOMAIN fs : FieldFits(Lists[r.ls], fs[i].k, r.data, fs[i].o, r.fields[fs[i].n], parts[i])

ReportFits(r, fmt) ==
  LET fs == Fields(r, fmt) IN
  /\ r.mod = Modulation(fmt) /\ r.crc_ok
  /\ r.raw = HexOf(r.data)
  /\ { fs[i].n : i \in DOMAIN fs } = DOMAIN r.fields
  /\ r.callsign = IdName(Lists[r.ls], IntOf(fs[1].k, r.data, 0))
  /\ r.custom = [i \in 1..(Len(fs) - Len(Layout(fmt))) |-> fs[Len(Layout(fmt)) + i].n]
  /\ SentenceFits(r, fs)

Explains(r) ==
  LET fmt == Format(r) IN
  CASE fmt = "reject" -> r.res = "ValueError"
    [] fmt = "horus_binary_v3" -> IF r.v3 THEN r.res = "ok" /\ r.mod = "Horus Binary v3" ELSE r.res = "ok" => r.mod = "Horus Binary v3"   \* its contents are the business of V3Trace
    [] OTHER -> IF Readable(r, fmt) THEN r.res = "ok" /\ ReportFits(r, fmt) ELSE r.res = "ValueError"
Accepted == l <= Len(Recs) => Explains(Recs[l])
==============================================================================
