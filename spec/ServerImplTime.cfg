CONSTANT Session = {a, b}
CONSTANT None = None
CONSTANT T = 1
CONSTANT W = TRUE
CONSTANT MaxReq = 3
CONSTANT MaxTime = 2
CONSTANT Units = 1
CONSTANT Kinds = {"lock", "push"}
CONSTANT Leaving = FALSE
CONSTANT StaleWriter = FALSE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = FALSE
CONSTANT KeepQueue = FALSE
SPECIFICATION Spec
INVARIANTS QueueOk Exclusive NoStalePull
PROPERTIES Refines
CHECK_DEADLOCK FALSE
