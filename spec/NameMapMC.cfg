CONSTANTS
 Threads = {1, 2}
 Lock = TRUE
 MaxOps = 3
SPECIFICATION Spec
INVARIANTS NoTearing Exclusive Isolated
CHECK_DEADLOCK FALSE
