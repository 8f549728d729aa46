CONSTANT Session = {a, b, c}
CONSTANT None = None
CONSTANT T = 0
CONSTANT W = TRUE
CONSTANT MaxReq = 3
CONSTANT MaxTime = 0
CONSTANT Units = 1
CONSTANT Kinds = {"lock", "push", "quit"}
CONSTANT Leaving = TRUE
CONSTANT StaleWriter = FALSE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = FALSE
CONSTANT KeepQueue = FALSE
SPECIFICATION Spec
INVARIANTS QueueOk Exclusive NoStalePull
PROPERTIES Refines
CHECK_DEADLOCK FALSE
