----------------------------- MODULE StatsTrace -----------------------------
(* Modem statistics over a sliding window of time.  Time is in eighths of a    *)
(* second.  Each recorded history is replayed step by step: the state is the   *)
(* set of updates inside the window and what was last reported.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, now, win, rep
vars == <<l, i, now, win, rep>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* report at the start: no SNR, nothing estimated *)
Zero == [snr |-> -9990000, ppm |-> 0, f |-> <<0, 0, 0, 0>>, mean |-> 0, sp |-> 0]
Init == l \in 1..Len(Recs) /\ i = 0 /\ now = 0 /\ win = <<>> /\ rep = Zero

Op == Recs[l].ops[i + 1]
Keep(w, t) == SelectSeq(w, LAMBDA s : s.t > t - Recs[l].avg)
Spacing6(f) == LET k == Len(f) IN (f[k] - f[1]) * (6 \div (k - 1))       \* six times the mean spacing
Next ==
  /\ i < Len(Recs[l].ops) /\ i' = i + 1 /\ l' = l
  /\ now' = now + Op.dt
  /\ rep' = Op.o
  /\ win' = IF Op.ok THEN Keep(Append(win, [t |-> now + Op.dt, snr |-> Op.snr, ppm |-> Op.ppm, sp |-> Spacing6(Op.f)]), now + Op.dt)
            ELSE win

Sum(w, sel(_)) == FoldLeft(LAMBDA a, s : a + sel(s), 0, w)
Peak(w) == FoldLeft(LAMBDA a, s : IF s.snr > a THEN s.snr ELSE a, -100000, w)
IsMean(x, k, sum, n) == Abs(n * x - k * sum) <= n + 1
(* the step just taken reported what the window holds *)
Good ==
  i > 0 =>
    LET o == Recs[l].ops[i]  n == Len(win) IN
    IF o.ok THEN
       /\ ~o.raised
       /\ n > 0 =>
          /\ IF Recs[l].peak THEN Abs(rep.snr - 100 * Peak(win)) <= 1 ELSE IsMean(rep.snr, 100, Sum(win, LAMBDA s : s.snr), n)
          /\ IsMean(rep.ppm, 100, Sum(win, LAMBDA s : s.ppm), n)
          /\ Abs(6 * n * rep.sp - 10 * Sum(win, LAMBDA s : s.sp)) <= 6 * n + 6
       /\ rep.f = o.f
       /\ IsMean(rep.mean, 10, FoldLeft(LAMBDA a, b : a + b, 0, o.f), Len(o.f))
    ELSE rep = (IF i = 1 THEN Zero ELSE Recs[l].ops[i - 1].o)
(* what is in the window is exactly what was received within the averaging period of the last good update *)
WindowExact == \A k \in DOMAIN win : win[k].t <= now
=============================================================================
