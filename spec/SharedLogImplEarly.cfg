CONSTANTS Writers = {1, 2} Readers = {} None = None MaxTx = 1 MaxKill = 0 EarlySize = TRUE LateFlush = FALSE
SPECIFICATION Spec
INVARIANTS Whole ViewsArePrefixes Alone Once NotLost
PROPERTIES LogGrows SharedRefined
CHECK_DEADLOCK FALSE
