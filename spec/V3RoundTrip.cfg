INIT Init
NEXT Next
CONSTANTS Cut = FALSE  Few = TRUE
INVARIANTS ReadBack Filler Exact NoShorter
CHECK_DEADLOCK FALSE
