---------------------------- MODULE BitToolsTrace ----------------------------
(* The bit level tools: what is modulated comes out of fsk_demod again, in     *)
(* every input format; test frames are produced and counted as specified.      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

(* ---- demodulation: after the first frame every bit arrives, in order, none lost or inserted ---- *)
(* r.skip: bits the receiver may need to settle; r.tail: bits that may still be inside it at the end *)
Carries(r) == \E off \in 0..r.lag : 
                /\ off + Len(r.sent) - r.tail <= Len(r.out)
                /\ \A i \in (r.skip + 1)..(Len(r.sent) - r.tail) : r.out[i + off] = r.sent[i]
Demod(r) == /\ r.code = 0
            /\ (Len(r.out) % r.frame) = 0                       \* whole frames
            /\ \A i \in DOMAIN r.out : r.out[i] \in {0, 1}
            /\ Carries(r)
            \* the statistics name the tones of the signal, lowest first (tenths of a Hz; a finer claim would depend on the estimator)
            /\ \A n \in DOMAIN r.est : Len(r.est[n]) = Len(r.tones) /\ \A m \in DOMAIN r.tones : LET d == r.est[n][m] - 10 * r.tones[m] IN 2 * d < 9 * r.rs /\ 2 * d > -9 * r.rs
            /\ \A v \in DOMAIN r.variants : r.variants[v].bits = r.out      \* soft decisions, statistics, pipes: the same bits

(* ---- test frames ---- *)
Frame(r) == [i \in 1..r.f |-> r.pattern[i]]
Generated(r) == IF r.n \div r.f = 0 THEN r.code # 0 /\ r.out = <<>>
                ELSE r.code = 0 /\ r.out = [i \in 1..(r.n \div r.f) * r.f |-> r.pattern[((i - 1) % r.f) + 1]]
(* errors of the last f bits received when the n-th bit has arrived; before the first bit: zeros *)
Errs(r, n) == Cardinality({i \in 1..r.f : (IF n - r.f + i >= 1 THEN r.bits[n - r.f + i] ELSE 0) # r.pattern[i]})
(* a frame is one that has less than num/den of its bits wrong *)
All(r) == [n \in DOMAIN r.bits |-> Errs(r, n)]
RECURSIVE Total(_, _, _, _)
Total(E, i, lim, acc) == IF i > Len(E) THEN acc
                         ELSE Total(E, i + 1, lim, IF E[i] * lim[2] < lim[1] THEN [p |-> acc.p + 1, e |-> acc.e + E[i]] ELSE acc)
Count(r) == Total(All(r), 1, <<r.num * r.f, r.den>>, [p |-> 0, e |-> 0])
Counted(r) == LET c == Count(r) IN
  /\ r.frames = c.p /\ r.tested = c.p * r.f /\ r.errs = c.e
  /\ r.k = "put" => (r.code = 0) = (c.p >= r.minframes /\ (IF c.p = 0 THEN r.maxber[1] * 2 >= r.maxber[2] ELSE c.e * r.maxber[2] <= r.maxber[1] * c.p * r.f))

Why(r) == CASE r.k = "demod" -> IF Demod(r) THEN "ok" ELSE "the demodulated bits are not the bits sent, or the statistics name other tones"
            [] r.k = "get" -> IF Generated(r) THEN "ok" ELSE "the test bits are not whole test frames"
            [] r.k \in {"put", "tf"} -> IF Counted(r) THEN "ok" ELSE "test frames or their bit errors are miscounted"
Accepted == l <= Len(Recs) => Why(Recs[l]) = "ok"
==============================================================================
