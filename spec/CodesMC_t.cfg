SPECIFICATION Spec
CONSTANTS
  MaxV = 12
  MaxLen = 9
  MaxN = 3
  WIN = 6
INVARIANT PrefixSums
INVARIANT NoStall
INVARIANT Unique
INVARIANT PrefixFree
CHECK_DEADLOCK FALSE
PROPERTY Finishes
