CONSTANTS
 K = 2
 G = 4
 MaxPts = 3
 Ws = {0, 1}
 Sizes = {1, 2, 3, 4, 5}
 MaxEdges = 3
SPECIFICATION Spec
INVARIANTS Decoded Queried Graph
CHECK_DEADLOCK FALSE
