SPECIFICATION Spec
CONSTANTS
  N = 3
  Items = 4
  Cap = 3
  Flushers = {1, 2, 3}
INVARIANTS NothingHeld NothingLost NothingInvented NoOrphans
PROPERTIES EndsWithInput Ripples
CHECK_DEADLOCK FALSE
