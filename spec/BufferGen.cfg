CONSTANTS
 MaxLen = 14
 MaxB = 4
 Vals = {0, 1, 200}
 Gap = 5
 Gen = TRUE
 K = 40
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Refines Persisted FileBound NoStale
CHECK_DEADLOCK FALSE
