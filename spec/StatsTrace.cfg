INIT Init
NEXT Next
INVARIANT Good
INVARIANT WindowExact
CHECK_DEADLOCK FALSE
