CONSTANTS
 Block = 4
 Window = 18
 UwLen = 2
 Sizes = {5, 8, 14}
 Horizon = 24
 MaxTrack = 4
 MaxPackets = 3
 MaxFalse = 1
INIT Init
NEXT Next
INVARIANTS OnlySent ExactlyOnce InOrder NeverEarly NoLoss Prompt Bounded
CHECK_DEADLOCK FALSE
