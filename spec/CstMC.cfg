SPECIFICATION Spec
CONSTANTS
  N = 5
  KK = 2
INVARIANTS Inv
CHECK_DEADLOCK FALSE
