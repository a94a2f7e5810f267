CONSTANTS
 W = 3
 Ns = {1, 2, 3, 4, 8, 9, 10}
 U = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Summary Inside Answers
CHECK_DEADLOCK FALSE
