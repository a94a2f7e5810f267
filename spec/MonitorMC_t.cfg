CONSTANTS
 G = 2
 MaxT = 4
 MaxE = 2
 MaxR = 3
 Deltas = {1002, 999}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS TimeOrdered WellNested RealUsages
CHECK_DEADLOCK FALSE
