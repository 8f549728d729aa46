CONSTANT Client = {a, b}
CONSTANT Robust = {b}
CONSTANT MaxId = 4
CONSTANT MaxFaults = 2
CONSTANT Wrong = "keep"
CONSTANT None = None
SPECIFICATION Spec
INVARIANTS HistoryOnce FileOk LockedOk Released
PROPERTY Grows
CHECK_DEADLOCK FALSE
