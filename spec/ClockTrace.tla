----------------------------- MODULE ClockTrace -----------------------------
(* Resolution of a packet's time of day against the receiver's clock.  The     *)
(* rule is first shown to do what it is for: the resolved time is never more    *)
(* than a day from the clock and, for every payload whose clock is within an    *)
(* hour of the receiver's, it is the true instant, across midnight too.         *)
EXTENDS Calendar, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
W == 16
VARIABLE l
Init == l \in 1..W
Next == l + W <= Len(Recs) /\ l' = l + W

Hour(n) == n \div 60
(* times in minutes; a payload skewed by k minutes transmits (c + k) mod 1440 *)
ASSUME RuleIsRight ==
  \A c \in 0..1439 : \A k \in -60..60 :
     LET t == (c + k + 1440) % 1440 IN t + 1440 * DayShift(Hour(t), Hour(c)) = c + k
Dates == {<<2024, 2, 29>>, <<2023, 2, 28>>, <<2024, 12, 31>>, <<2024, 1, 1>>, <<2000, 2, 29>>, <<2100, 2, 28>>, <<2024, 3, 1>>, <<2023, 3, 1>>, <<2024, 4, 30>>, <<2024, 5, 1>>}
ASSUME \A d \in Dates : Yesterday(Tomorrow(d)) = d /\ Tomorrow(Yesterday(d)) = d

PointFits(r, p) == p.o = Resolve(SubSeq(r.clk, 1, 3), p.t[1], r.clk[4]) \o p.t
Accepted == l <= Len(Recs) => \A i \in DOMAIN Recs[l].pts : PointFits(Recs[l], Recs[l].pts[i])
=============================================================================
