CONSTANTS
 Names = {"a", "b"}
 MaxDepth = 3
 MaxSteps = 12
SPECIFICATION Spec
INVARIANTS Accounted
CHECK_DEADLOCK FALSE
