CONSTANTS
 B = 63
 Ns = {0, 1, 61, 62, 63, 125, 126, 200, 1000, 4032}
 Kinds = {1, 2, 3}
 U = {0, 1, 2, 30, 60, 61, 62, 63, 64, 65, 123, 124, 125, 126, 127, 128, 150, 187, 188, 189, 190, 200, 250, 251, 252, 253, 314, 315, 316, 377, 378, 379, 440, 441, 504, 567, 630, 700, 756, 819, 945, 999, 1000, 1001, 1007, 1008, 1009, 2000, 2015, 2016, 2079, 3000, 3968, 3969, 4030, 4031, 4032, 4033, 5000, 70000, 1000000}
 Gen = TRUE
 K = 120
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Refines Clean
CHECK_DEADLOCK FALSE
