CONSTANTS
 MaxLen = 5
 MaxOff = 4
 Chunk = 3
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines Positions Bounds
CHECK_DEADLOCK FALSE
