SPECIFICATION Spec
INVARIANTS Steady Bounded
CONSTANTS
  Keep = FALSE
  Max = 12
CHECK_DEADLOCK FALSE
