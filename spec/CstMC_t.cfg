SPECIFICATION Spec
CONSTANTS
  N = 6
  KK = 3
INVARIANTS Inv
CHECK_DEADLOCK FALSE
