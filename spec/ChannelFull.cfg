CONSTANT Words <- FullWords
INIT Init
NEXT Next
INVARIANTS Recovered Corrected
VIEW View
CHECK_DEADLOCK FALSE
