CONSTANTS
 MaxLen = 40
 MaxOff = 6
 Chunk = 4
 Gen = TRUE
 K = 40
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Refines Positions Bounds
CHECK_DEADLOCK FALSE
