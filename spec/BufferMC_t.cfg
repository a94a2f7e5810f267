CONSTANTS
 MaxLen = 6
 MaxB = 3
 Vals = {1, 2}
 Gap = 3
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines Persisted FileBound NoStale
CHECK_DEADLOCK FALSE
