SPECIFICATION Spec
CONSTANTS
  N = 8
  K = 4
  B <- BSmall
INVARIANTS Inv
CHECK_DEADLOCK FALSE
