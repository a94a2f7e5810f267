SPECIFICATION Spec
CONSTANTS N = 11 B = 4 Cap = 2 K = 3
INVARIANTS Inside BitsAgree RanksAgree SelectsAgree
CHECK_DEADLOCK FALSE
