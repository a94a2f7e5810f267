SPECIFICATION Spec
CONSTANTS
  N = 18
  B <- BSmall
INVARIANTS Inv
CHECK_DEADLOCK FALSE
