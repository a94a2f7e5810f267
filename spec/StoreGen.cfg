CONSTANTS
 S = 3
 V = 4
 F = 2
 MaxStream = 6
 Ops = {1, 2, 5, 8, 9, 10, 11, 12, 13, 14, 15}
 Gen = TRUE
 K = 40
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Refines Attached
CHECK_DEADLOCK FALSE
