CONSTANTS
 G = 0
 MaxT = 14
 MaxE = 9
 MaxR = 14
 Deltas = {1008, 1064, 1400, 992, 800}
 Gen = TRUE
 K = 26
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS TimeOrdered WellNested RealUsages
CHECK_DEADLOCK FALSE
