SPECIFICATION Spec
CONSTANTS N = 9 B = 3 Cap = 3 K = 2
INVARIANTS Inside BitsAgree RanksAgree SelectsAgree
CHECK_DEADLOCK FALSE
