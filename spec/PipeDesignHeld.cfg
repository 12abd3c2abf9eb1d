SPECIFICATION Spec
CONSTANTS
  N = 3
  Items = 4
  Cap = 3
  Flushers = {1, 3}
INVARIANTS NothingHeld
CHECK_DEADLOCK FALSE
