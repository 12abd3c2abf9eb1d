INIT Init
NEXT Next
INVARIANT Position
CHECK_DEADLOCK FALSE
