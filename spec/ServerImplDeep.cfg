CONSTANT Session = {a, b, c}
CONSTANT None = None
CONSTANT T = 1
CONSTANT W = TRUE
CONSTANT MaxReq = 4
CONSTANT MaxTime = 2
CONSTANT Units = 2
CONSTANT Kinds = {"lock", "push", "pull", "wait", "quit"}
CONSTANT Leaving = TRUE
CONSTANT StaleWriter = FALSE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = FALSE
CONSTANT KeepQueue = FALSE
SPECIFICATION Spec
INVARIANTS QueueOk Exclusive NoStalePull
PROPERTIES Refines
CHECK_DEADLOCK FALSE
