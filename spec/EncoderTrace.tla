---------------------------- MODULE EncoderTrace ----------------------------
(* Creation of version 2 packets: every argument lands in its field, to the    *)
(* resolution of the field, clipped to its range.                              *)
EXTENDS Crc, Text, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

S8(b) == IF b >= 128 THEN b - 256 ELSE b
S16(n) == IF n >= 32768 THEN n - 65536 ELSE n
Clip(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n
(* v is x * num / den to within one step of v, clipped to lo..hi.  Whole numbers in unit scale are exact. *)
Whole(x, k) == x.ip * k + (x.fp * k) \div 1000000
Remain(x, k) == (x.fp * k) % 1000000
Sgn(x, n) == IF x.neg THEN -n ELSE n
Quant(v, x, k, lo, hi) ==
  LET t == Whole(x, k) IN
  IF x.ip >= 100000 THEN v = (IF x.neg THEN lo ELSE hi)
  ELSE \/ v = Clip(Sgn(x, t), lo, hi)
       \/ Remain(x, k) # 0 /\ v = Clip(Sgn(x, t + 1), lo, hi)
       \/ Remain(x, k) = 0 /\ k # 1 /\ x.t = "f" /\ (v = Clip(Sgn(x, t + 1), lo, hi) \/ v = Clip(Sgn(x, t - 1), lo, hi))
(* battery: 51 steps per volt up to 5 V *)
Near(x, y) == x.t = "f" /\ Abs(x.ip - y.ip) <= 1 /\ Abs((x.ip - y.ip) * 1000000 + x.fp - y.fp) <= 8 /\ ((y.ip # 0 \/ y.fp > 8) => (x.neg <=> y.neg))

TimeOf(r) == IF r.arg.hours.t # "none" /\ r.arg.minutes.t # "none" /\ r.arg.seconds.t # "none" THEN "given" ELSE IF r.dt # <<>> THEN "dt" ELSE "now"
InRange(x) == x.ip < 180 \/ (x.ip = 180 /\ x.fp = 0)
PacketFits(r) ==
  LET B == r.pkt  a == r.arg IN
  /\ Len(B) = 32 /\ TailOk(B)
  /\ r.back = B /\ Len(r.coded) = 65
  /\ U16(B, 0) = r.id /\ U16(B, 2) = r.seq
  /\ CASE TimeOf(r) = "given" -> Quant(B[5], a.hours, 1, 0, 23) /\ Quant(B[6], a.minutes, 1, 0, 59) /\ Quant(B[7], a.seconds, 1, 0, 59)
       [] TimeOf(r) = "dt" -> SubSeq(B, 5, 7) = r.dt
       [] OTHER -> SubSeq(B, 5, 7) = SubSeq(r.now, 4, 6)
  /\ (InRange(a.latitude) /\ InRange(a.longitude)) => r.dec = "ok" /\ Near(r.lat, a.latitude) /\ Near(r.lon, a.longitude)
  /\ r.dec = "ok" => /\ r.got.seq = r.seq /\ r.got.alt = U16(B, 15) /\ r.got.speed = B[18] /\ r.got.sats = B[19]
                     /\ r.got.time = TwoDigits(B[5]) \o <<Colon>> \o TwoDigits(B[6]) \o <<Colon>> \o TwoDigits(B[7])
  /\ Quant(U16(B, 15), a.altitude, 1, 0, 65535)
  /\ Quant(B[18], a.speed, 1, 0, 255)
  /\ Quant(B[19], a.satellites, 1, 0, 255)
  /\ Quant(S8(B[20]), a.temperature, 1, -128, 127)
  /\ Quant(B[21], a.battery_voltage, 51, 0, 255)
  /\ IF Len(r.custom) = 9 THEN SubSeq(B, 22, 30) = r.custom
     ELSE /\ Quant(S16(U16(B, 21)), a.ascent_rate, 100, -32768, 32767)
          /\ Quant(S16(U16(B, 23)), a.ext_temperature, 10, -32768, 32767)
          /\ Quant(B[26], a.ext_humidity, 1, 0, 255)
          /\ Quant(U16(B, 26), a.ext_pressure, 10, 0, 65535)
          /\ B[29] = 0 /\ B[30] = 0
Explains(r) == IF r.id \in 256..65535 THEN r.res = "ok" /\ PacketFits(r) ELSE r.res = "ValueError"
Accepted == l <= Len(Recs) => Explains(Recs[l])
=============================================================================
