CONSTANTS
 Refill = TRUE
 Gen = TRUE
 K = 16
 Fresh = TRUE
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS NoWrong Clean
CHECK_DEADLOCK FALSE
