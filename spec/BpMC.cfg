SPECIFICATION Spec
CONSTANTS
  N = 14
  B <- BSmall
INVARIANTS Inv
CHECK_DEADLOCK FALSE
