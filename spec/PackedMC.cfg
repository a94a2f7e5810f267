SPECIFICATION Spec
CONSTANTS
  W = 4
  M = 3
  Vals = {0, 1, 6, 9, 15}
INVARIANT Represents
INVARIANT Moving
INVARIANT SetEnabled
CHECK_DEADLOCK FALSE
