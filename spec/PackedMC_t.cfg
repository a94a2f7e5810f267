SPECIFICATION Spec
CONSTANTS
  W = 5
  M = 3
  Vals = {0, 1, 2, 7, 8, 13, 16, 21, 30, 31}
INVARIANT Represents
INVARIANT Moving
INVARIANT SetEnabled
CHECK_DEADLOCK FALSE
