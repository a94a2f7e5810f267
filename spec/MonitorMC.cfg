CONSTANTS
 G = 2
 MaxT = 3
 MaxE = 2
 MaxR = 2
 Deltas = {1002, 999}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS TimeOrdered WellNested RealUsages
CHECK_DEADLOCK FALSE
