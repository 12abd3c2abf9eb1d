------------------------------ MODULE Calendar ------------------------------
(* Dates as <<year, month, day>>.                                              *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
Tomorrow(d) == IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>> ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
Yesterday(d) == IF d[3] > 1 THEN <<d[1], d[2], d[3] - 1>> ELSE IF d[2] > 1 THEN <<d[1], d[2] - 1, MonthLen(d[1], d[2] - 1)>> ELSE <<d[1] - 1, 12, 31>>
(* the day a time of day with hour th belongs to, for a receiver's clock reading ch o'clock *)
DayShift(th, ch) == IF th = 23 /\ ch = 0 THEN -1 ELSE IF th = 0 /\ ch = 23 THEN 1 ELSE 0
Resolve(date, th, ch) == CASE DayShift(th, ch) = -1 -> Yesterday(date) [] DayShift(th, ch) = 1 -> Tomorrow(date) [] OTHER -> date
=============================================================================
