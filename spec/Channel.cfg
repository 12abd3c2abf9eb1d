CONSTANT Words <- UnitWords
INIT Init
NEXT Next
INVARIANTS Recovered Corrected
CHECK_DEADLOCK FALSE
