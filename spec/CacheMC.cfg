CONSTANTS
 Refill = TRUE
 Gen = FALSE
 K = 0
 Fresh = FALSE
SPECIFICATION Spec
INVARIANTS NoWrong Clean
CHECK_DEADLOCK FALSE
