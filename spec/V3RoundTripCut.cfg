INIT Init
NEXT Next
CONSTANTS Cut = TRUE  Few = TRUE
INVARIANTS ReadBack Filler Exact NoShorter
CHECK_DEADLOCK FALSE
