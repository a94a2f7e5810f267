CONSTANTS
 MaxLen = 4
 MaxB = 3
 Vals = {0, 1, 2}
 Gap = 3
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines Persisted FileBound NoStale
CHECK_DEADLOCK FALSE
