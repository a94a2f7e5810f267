CONSTANTS
 Total = 144
 Slots = {1, 2, 3, 4, 5, 6, 7}
 Sizes = {0, 1, 7, 8, 9, 15, 16, 17, 24, 25, 31, 33, 40, 41, 56, 64, 65, 100, 257, 504, 1000}
 Gen = TRUE
 K = 80
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Tiled Owned Room Aligned Merged Reusable
CHECK_DEADLOCK FALSE
