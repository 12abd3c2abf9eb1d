SPECIFICATION Spec
INVARIANTS Steady Bounded
CONSTANTS
  Keep = TRUE
  Max = 12
CHECK_DEADLOCK FALSE
