CONSTANTS
 S = 3
 V = 3
 F = 1
 MaxStream = 3
 Ops = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines Attached
CHECK_DEADLOCK FALSE
