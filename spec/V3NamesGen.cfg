SPECIFICATION Spec
CONSTANTS Calls = {"a", "b", "c"}  Names = {"n", "m"}  MaxSensors = 4  MaxLen = 25  Show = TRUE
INVARIANTS LastAnnounced ShownIsLast OwnHistoryOnly Printed
CHECK_DEADLOCK FALSE
