SPECIFICATION Spec
CONSTANTS Calls = {"a", "b"}  Names = {"n", "m"}  MaxSensors = 2  MaxLen = 3  Show = FALSE
INVARIANTS LastAnnounced ShownIsLast OwnHistoryOnly
PROPERTIES OthersUnaffected
CHECK_DEADLOCK FALSE
