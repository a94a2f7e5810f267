CONSTANTS
 Threads = {1, 2, 3}
 Lock = TRUE
 MaxOps = 2
SPECIFICATION Spec
INVARIANTS NoTearing Exclusive Isolated
CHECK_DEADLOCK FALSE
