CONSTANTS
 S = 3
 V = 4
 F = 1
 MaxStream = 0
 Ops = {1, 2, 3, 4, 5, 6, 7, 8}
 Gen = TRUE
 K = 36
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Refines Attached
CHECK_DEADLOCK FALSE
