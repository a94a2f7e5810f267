SPECIFICATION Spec
CONSTANTS
    Threads = {1, 2}
    Qs = {1, 2}
    Cells = 2
    Designs = {"local"}
    Names = {"pid"}
    MaxCalls = 2
INVARIANTS SameAsAlone
