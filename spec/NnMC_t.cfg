CONSTANTS
 W = 3
 Ns = {1, 2, 3, 7, 9, 10, 12, 13}
 U = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Summary Inside Answers
CHECK_DEADLOCK FALSE
