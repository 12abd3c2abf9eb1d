-------------------------------- MODULE Text --------------------------------
(* Text as sequences of character codes: decimal numbers, splitting, hex.      *)
EXTENDS Integers, Sequences, SequencesExt
Dash == 45  Dot == 46  Comma == 44  Star == 42  DollarC == 36  Colon == 58
IsDigit(c) == c \in 48..57
AllDigits(q) == q # <<>> /\ \A i \in DOMAIN q : IsDigit(q[i])
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<Dash>> \o NatText(-n) ELSE NatText(n)
TwoDigits(n) == <<48 + (n \div 10), 48 + (n % 10)>>
(* a 32 bit number given as hi * 65536 + lo *)
RECURSIVE WideNat(_, _)
WideNat(hi, lo) ==
   IF hi = 0 THEN NatText(lo)
   ELSE LET r == (hi % 10) * 65536 + lo IN Append(WideNat(hi \div 10, r \div 10), 48 + (r % 10))
WideText(hi, lo) == IF hi >= 0 THEN WideNat(hi, lo)
                    ELSE <<Dash>> \o (IF lo = 0 THEN WideNat(-hi, 0) ELSE WideNat(-hi - 1, 65536 - lo))
ValOf(q) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, q)
HexDig(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex4(n) == <<HexDig(n \div 4096), HexDig((n \div 256) % 16), HexDig((n \div 16) % 16), HexDig(n % 16)>>
HexOf(B) == [i \in 1..2*Len(B) |-> HexDig(IF i % 2 = 1 THEN B[(i + 1) \div 2] \div 16 ELSE B[i \div 2] % 16)]
(* split at a separator *)
Split(q, c) == LET S == SelectSeq([i \in 1..Len(q)+1 |-> i], LAMBDA i : i = Len(q) + 1 \/ q[i] = c)
               IN [k \in DOMAIN S |-> SubSeq(q, IF k = 1 THEN 1 ELSE S[k-1] + 1, S[k] - 1)]
JoinC(qs) == FoldLeft(LAMBDA a, q : IF a = <<>> THEN q ELSE a \o <<Comma>> \o q, <<>>, qs)
LastIndex(q, c) == FoldLeft(LAMBDA a, i : IF q[i] = c THEN i ELSE a, 0, [i \in DOMAIN q |-> i])
FirstIndex(q, c) == FoldLeft(LAMBDA a, i : IF a = 0 /\ q[i] = c THEN i ELSE a, 0, [i \in DOMAIN q |-> i])
(* fixed point decimal text with exactly p places: sign, whole part, millionths *)
IsFixed(q, p) == LET s == IF q # <<>> /\ q[1] = Dash THEN Tail(q) ELSE q
                     d == FirstIndex(s, Dot)
                 IN d > 1 /\ AllDigits(SubSeq(s, 1, d - 1)) /\ Len(s) = d + p /\ AllDigits(SubSeq(s, d + 1, Len(s)))
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000 [] k = 6 -> 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
(* the text is the value (neg, ip, fp millionths) rounded to p places *)
FixedFits(q, p, neg, ip, fp) ==
   /\ IsFixed(q, p)
   /\ LET s  == IF q[1] = Dash THEN Tail(q) ELSE q
          d  == FirstIndex(s, Dot)
          tf == ValOf(SubSeq(s, d + 1, Len(s))) * Pow10(6 - p)
      IN \/ d > 10                                      \* too large to compare here
         \/ LET ti == ValOf(SubSeq(s, 1, d - 1)) IN
            /\ Abs(ti - ip) <= 1
            /\ Abs((ti - ip) * 1000000 + tf - fp) <= (Pow10(6 - p) \div 2) + 1
            /\ (ti # 0 \/ tf # 0) => (neg <=> q[1] = Dash)
==============================================================================
