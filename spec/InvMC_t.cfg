CONSTANTS
 N = 6
 M = 11
 Ts = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Inverse Dictionary
CHECK_DEADLOCK FALSE
