----------------------------- MODULE SignalTrace -----------------------------
(* What the receiver reports about a signal is what the signal is.             *)
(* A record is one transmission: its tones (0.1 Hz), clock error (ppm), signal *)
(* to noise ratio in 3 kHz (0.01 dB) and, per demodulated block, the reported  *)
(* statistics.  The estimators need a few blocks to settle: tones Settle       *)
(* blocks, level Level blocks, clock Clock blocks (a first order tracker, 0.9  *)
(* per block, which adjusts to the channel from zero).                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

Settle == 4
Level == 8
Clock == 45
ToneTol == 450                  \* 45 Hz
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Sum(_, _, _)
Sum(B, i, s) == IF i > Len(B) THEN s ELSE Sum(B, i + 1, s + B[i].snr)
Mean(B) == Sum(B, 1, 0) \div Len(B)
From(r, n) == SubSeq(r.blocks, n, Len(r.blocks))

(* ---- what one block may say, whatever is received ---- *)
SaneBlock(r, b) ==
  /\ b.finite                                                   \* numbers, never a NaN or an infinity (the eye of silence has no scale)
  /\ Len(b.f) = r.m
  /\ \A k \in 1..(r.m - 1) : b.f[k] <= b.f[k + 1]               \* ascending
  /\ r.sp > 0 => \A k \in 1..(r.m - 1) : b.f[k + 1] - b.f[k] = 10 * r.sp   \* a spacing that was announced is kept
  /\ b.sync = 0
  /\ b.traces = r.m * (8 \div r.m) /\ b.points <= 160 /\ b.points >= 1
  /\ b.eyelo >= 0 /\ b.eyehi <= 10001
  /\ Abs(b.rt) <= 50 * r.p                                      \* within half a symbol: rt is in 1/100 of a sample, p samples/symbol
(* ---- tones, level, timing of a real signal ---- *)
Tones(r) == \A i \in Settle..Len(r.blocks) : \A k \in 1..r.m : Abs(r.blocks[i].f[k] - r.f[k]) <= ToneTol
Eye(r)   == \A i \in Settle..Len(r.blocks) : r.blocks[i].scaled /\ r.blocks[i].eyehi >= 9999         \* scaled to the peak
(* the clock estimate has the sign and the size of the error *)
Ppm(r)   == \A i \in Clock..Len(r.blocks) : Abs(r.blocks[i].ppm - r.ppm) <= (IF r.snr >= 900 THEN 100 ELSE 250) + Abs(r.ppm) \div 20
(* the sampling point is kept within 0.4 of a symbol: the timing loop asks for more or fewer samples in time *)
Timing(r) == \A i \in Settle..Len(r.blocks) : Abs(r.blocks[i].rt) * 5 <= 200 * r.p
(* signal to noise: 4FSK as it is, 2FSK up to 3 dB more pessimistic *)
Snr(r)   == IF r.snr = 9900 THEN \A i \in Level..Len(r.blocks) : r.blocks[i].snr >= 700
            ELSE LET m == Mean(From(r, Level)) IN m <= r.snr + 200 /\ m >= r.snr - (IF r.m = 2 THEN 650 ELSE 450)

Describes(r) == /\ Len(r.blocks) > Clock /\ Tones(r) /\ Eye(r) /\ Ppm(r) /\ Timing(r) /\ Snr(r)
(* ---- comparing receptions of the same transmission ---- *)
(* louder noise, lower figure; the same recording at another volume, the same figure *)
Louder(r)  == \A i \in 1..(Len(r.means) - 1) : r.means[i] >= r.means[i + 1] + r.step
Volume(r)  == \A i \in 1..(Len(r.means) - 1) : Abs(r.means[i] - r.means[1]) <= r.step
(* estimator limits: on noise alone, every tone is looked for inside them only (bin: resolution, 0.1 Hz) *)
Limits(r)  == \A i \in DOMAIN r.blocks : \A k \in 1..r.m : r.blocks[i].f[k] >= 10 * r.lo - r.bin /\ r.blocks[i].f[k] <= 10 * r.hi + r.bin

(* ---- the printed statistics: a line a second fraction, read back by the gateway's statistics reader ---- *)
ToolLine(r, i) == LET a == r.lines[i] IN
  /\ a.read                                                     \* FSKDemodStats accepted the line
  /\ Len(a.f) = r.m
  /\ \A k \in 1..(r.m - 1) : a.f[k] <= a.f[k + 1]
  /\ (r.f # <<>> /\ i >= Settle /\ i <= r.min) => \A k \in 1..r.m : Abs(a.f[k] - r.f[k]) <= ToneTol
  /\ a.f = a.got.f /\ a.snr = a.got.snr /\ a.ppm = a.got.ppm
Tool(r) == Len(r.lines) >= r.min /\ \A i \in DOMAIN r.lines : ToolLine(r, i)

Why(r) ==
  CASE r.k = "signal" ->
         IF ~(\A i \in DOMAIN r.blocks : SaneBlock(r, r.blocks[i])) THEN "a block's statistics are not sane"
         ELSE IF ~(Len(r.blocks) > Clock) THEN "too few blocks"
         ELSE IF ~Tones(r) THEN "the tone estimates are not the tones"
         ELSE IF ~Eye(r) THEN "the eye diagram is not scaled to its peak"
         ELSE IF ~Ppm(r) THEN "the clock offset is not the clock offset"
         ELSE IF ~Timing(r) THEN "the timing estimate leaves the tracking range"
         ELSE IF ~Snr(r) THEN "the signal to noise ratio is not the signal to noise ratio"
         ELSE "ok"
    [] r.k = "any"    -> IF \A i \in DOMAIN r.blocks : SaneBlock(r, r.blocks[i]) THEN "ok" ELSE "a block's statistics are not sane"
    [] r.k = "limits" -> IF ~(\A i \in DOMAIN r.blocks : SaneBlock(r, r.blocks[i])) THEN "a block's statistics are not sane"
                         ELSE IF Limits(r) THEN "ok" ELSE "a tone estimate is outside the estimator's limits"
    [] r.k = "louder" -> IF Louder(r) THEN "ok" ELSE "more noise does not lower the reported ratio"
    [] r.k = "volume" -> IF Volume(r) THEN "ok" ELSE "the reported ratio depends on the volume"
    [] r.k = "tool"   -> IF Tool(r) THEN "ok" ELSE "the printed statistics are not read back"
Accepted == l <= Len(Recs) => Why(Recs[l]) = "ok"
==============================================================================
