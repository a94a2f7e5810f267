CONSTANTS
 B = 3
 M = 5
 K = 3
SPECIFICATION Spec
INVARIANTS Sizes Reads
CHECK_DEADLOCK FALSE
