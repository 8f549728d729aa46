CONSTANT Session = {a, b}
CONSTANT None = None
CONSTANT T = 0
CONSTANT W = TRUE
CONSTANT MaxReq = 3
CONSTANT MaxTime = 0
CONSTANT Units = 2
CONSTANT Kinds = {"push"}
CONSTANT Leaving = FALSE
CONSTANT StaleWriter = TRUE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = FALSE
CONSTANT KeepQueue = FALSE
SPECIFICATION Spec
INVARIANTS QueueOk Exclusive NoStalePull
PROPERTIES Refines
CHECK_DEADLOCK FALSE
