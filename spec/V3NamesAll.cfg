SPECIFICATION Spec
CONSTANTS Calls = {"a", "b"}  Names = {"n", "m"}  MaxSensors = 2  MaxLen = 2  Show = TRUE
INVARIANTS LastAnnounced ShownIsLast OwnHistoryOnly Printed
CHECK_DEADLOCK FALSE
