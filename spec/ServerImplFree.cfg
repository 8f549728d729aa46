CONSTANT Session = {a, b, c}
CONSTANT None = None
CONSTANT T = 0
CONSTANT W = TRUE
CONSTANT MaxReq = 4
CONSTANT MaxTime = 0
CONSTANT Units = 1
CONSTANT Kinds = {"lock", "push"}
CONSTANT Leaving = FALSE
CONSTANT StaleWriter = FALSE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = TRUE
CONSTANT KeepQueue = FALSE
SPECIFICATION Spec
INVARIANTS QueueOk Exclusive NoStalePull
PROPERTIES Refines
CHECK_DEADLOCK FALSE
