INIT Init
NEXT Next
INVARIANT UsedAsGiven
CHECK_DEADLOCK FALSE
