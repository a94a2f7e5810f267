CONSTANTS
 U = 2
 Block = 3
 MaxLen = 2
 Vals = {1, 2}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Refines NoLeftover OneOwner Room
CHECK_DEADLOCK FALSE
