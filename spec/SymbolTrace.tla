----------------------------- MODULE SymbolTrace -----------------------------
(* Bytes to bits to symbols to tones: most significant first, nothing lost.    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128
Bits(B) == [i \in 1..8*Len(B) |-> (B[(i + 7) \div 8] \div Pow2(7 - ((i - 1) % 8))) % 2]
(* consecutive groups of k bits, first bit most significant; an incomplete last group is completed with zeros *)
Group(bs, k) == [i \in 1..((Len(bs) + k - 1) \div k) |->
                   LET b(j) == IF k * (i - 1) + j <= Len(bs) THEN bs[k * (i - 1) + j] ELSE 0 IN IF k = 1 THEN b(1) ELSE 2 * b(1) + b(2)]
Preamble(n) == [i \in 1..n |-> 27]
(* the preamble is the four tones in rising order, over and over *)
ASSUME Group(Bits(Preamble(2)), 2) = <<0, 1, 2, 3, 0, 1, 2, 3>>

Whole(bs, per) == SubSeq(bs, 1, Len(bs) - (Len(bs) % per))
(* the level is full scale, in every symbol and however long the transmission, and the phase runs on from symbol to symbol *)
Steady(r) == \A i \in DOMAIN r.level : r.pure[i] >= 995 /\ r.level[i] \in 980..1020 /\ r.jump[i] <= 30
Explains(r) ==
  CASE r.k = "sym" -> r.out = Group(Bits(Preamble(r.pre) \o r.data), 2)
    [] r.k = "bit" -> r.out = Bits(Preamble(r.pre) \o r.data)
    [] r.k = "lib" -> /\ r.left = 0 /\ r.tones = Group(Whole(r.bits, r.block), r.per)
                      /\ IF r.fn = "v" THEN \A i \in DOMAIN r.pure : r.pure[i] = 1000 ELSE Steady(r)
    [] r.k = "tool" -> /\ r.left = 0 /\ r.tones = Group(r.bits, r.per)
                       /\ Steady(r)
Accepted == l <= Len(Recs) => Explains(Recs[l])
==============================================================================
