CONSTANTS
 B = 3
 M = 7
 K = 3
SPECIFICATION Spec
INVARIANTS Sizes Reads
CHECK_DEADLOCK FALSE
