CONSTANTS
 N = 5
 M = 8
 Ts = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Inverse Dictionary
CHECK_DEADLOCK FALSE
