CONSTANTS
 K = 3
 G = 4
 MaxPts = 2
 Ws = {0, 1}
 Sizes = {2, 3, 4, 9}
 MaxEdges = 1
SPECIFICATION Spec
INVARIANTS Decoded Queried Graph
CHECK_DEADLOCK FALSE
