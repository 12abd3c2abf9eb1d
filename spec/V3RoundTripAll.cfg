INIT Init
NEXT Next
CONSTANTS Cut = FALSE  Few = FALSE
INVARIANTS ReadBack Filler Exact NoShorter
CHECK_DEADLOCK FALSE
