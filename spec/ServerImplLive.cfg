CONSTANT Session = {a, b}
CONSTANT None = None
CONSTANT T = 1
CONSTANT W = TRUE
CONSTANT MaxReq = 3
CONSTANT MaxTime = 3
CONSTANT Units = 1
CONSTANT Kinds = {"lock"}
CONSTANT Leaving = FALSE
CONSTANT StaleWriter = FALSE
CONSTANT LateReset = FALSE
CONSTANT EarlyFree = FALSE
CONSTANT KeepQueue = FALSE
SPECIFICATION Fair
PROPERTIES LockProgress
CHECK_DEADLOCK FALSE
