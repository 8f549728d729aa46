CONSTANT Session = {1, 2, 3, 4, 5}
CONSTANT None = None
SPECIFICATION Spec
INVARIANTS Accepted QueueOk NoStalePull
PROPERTIES HistGrows OnlyHolder
CHECK_DEADLOCK FALSE
