SPECIFICATION Spec
CONSTANTS
    Threads = {1, 2}
    Qs = {1, 2}
    Cells = 2
    Designs = {"local", "locked"}
    Names = {"own"}
    MaxCalls = 2
INVARIANTS SameAsAlone NoRace
PROPERTY Served
