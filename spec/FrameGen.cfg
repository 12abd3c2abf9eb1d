INIT Init
NEXT Next
INVARIANT RoundTrip
POSTCONDITION Export
CHECK_DEADLOCK FALSE
