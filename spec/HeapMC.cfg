CONSTANTS
 Total = 144
 Slots = {1, 2, 3}
 Sizes = {0, 9, 17, 33}
 Gen = FALSE
 K = 0
SPECIFICATION Spec
INVARIANTS Tiled Owned Room Aligned Merged Reusable
CHECK_DEADLOCK FALSE
