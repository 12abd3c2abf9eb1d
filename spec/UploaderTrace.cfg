INIT Init
NEXT Next
INVARIANT Handled
CHECK_DEADLOCK FALSE
