SPECIFICATION Spec
CONSTANTS
  MaxV = 5
  MaxLen = 6
  MaxN = 3
  WIN = 5
INVARIANT PrefixSums
INVARIANT NoStall
INVARIANT Unique
INVARIANT PrefixFree
CHECK_DEADLOCK FALSE
