CONSTANTS
 MaxLen = 4
 MaxOff = 3
 Chunk = 2
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines Positions Bounds
CHECK_DEADLOCK FALSE
