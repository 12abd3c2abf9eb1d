INIT Init
NEXT Next
INVARIANT Refreshed
CHECK_DEADLOCK FALSE
