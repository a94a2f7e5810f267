SPECIFICATION Spec
CONSTANTS
  N = 6
  K = 3
INVARIANTS SAExact LCPExact LCPHolds Identities
CHECK_DEADLOCK FALSE
