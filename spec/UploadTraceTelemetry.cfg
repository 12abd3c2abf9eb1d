INIT Init
NEXT Next
INVARIANT Telemetry
CHECK_DEADLOCK FALSE
