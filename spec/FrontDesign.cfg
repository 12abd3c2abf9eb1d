CONSTANTS
 Nins = {2, 3}
 MaxChunk = 4
 Total = 7
SPECIFICATION Spec
INVARIANTS Independent Prompt Printed
PROPERTY Returns
CHECK_DEADLOCK FALSE
