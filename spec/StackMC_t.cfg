CONSTANTS
 B = 3
 Ns = {0, 1, 2, 3, 5, 8, 10}
 Kinds = {1, 2, 3}
 U = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines Clean
CHECK_DEADLOCK FALSE
