SPECIFICATION Spec
CONSTANTS
  N = 5
  K = 2
INVARIANTS SAExact LCPExact LCPHolds Identities
CHECK_DEADLOCK FALSE
