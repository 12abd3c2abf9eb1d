CONSTANTS
 Block = 3
 MaxLen = 16
 Dollars = {2, 3, 5, 7}
 Bodies = {6, 11, 14}
 Horizon = 40
 MaxTrack = 12
 MaxDollar = 3
 Clear = 5
 MaxSentences = 3
INIT Init
NEXT Next
INVARIANTS ExactlyOnce InOrder NoLoss
CHECK_DEADLOCK FALSE
