CONSTANTS
 U = 2
 Block = 3
 MaxLen = 9
 Vals = {0, 1, 255}
 Gen = TRUE
 K = 30
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Refines NoLeftover OneOwner Room
CHECK_DEADLOCK FALSE
