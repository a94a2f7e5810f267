SPECIFICATION Spec
CONSTANTS N = 4
 L = 2
INVARIANTS Matrix Tree Range2d PrefixCode RunLength Certificates Quantile
CHECK_DEADLOCK FALSE
