SPECIFICATION Spec
CONSTANTS
  N = 7
  K = 3
  B <- BSmall
INVARIANTS Inv
CHECK_DEADLOCK FALSE
