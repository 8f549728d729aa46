CONSTANT Session = {a, b}
CONSTANT None = None
CONSTANT T = 0
CONSTANT W = TRUE
CONSTANT MaxReq = 3
CONSTANT MaxTime = 1
CONSTANT Units = 1
CONSTANT Kinds = {"pull", "wait", "push"}
CONSTANT Leaving = FALSE
CONSTANT StaleWriter = FALSE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = FALSE
CONSTANT KeepQueue = TRUE
SPECIFICATION Spec
INVARIANTS QueueOk Exclusive NoStalePull
PROPERTIES Refines
CHECK_DEADLOCK FALSE
