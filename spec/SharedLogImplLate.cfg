CONSTANTS Writers = {1, 2} Readers = {} None = None MaxTx = 2 MaxKill = 0 EarlySize = FALSE LateFlush = TRUE
SPECIFICATION Spec
INVARIANTS Whole ViewsArePrefixes Alone Once NotLost
PROPERTIES LogGrows SharedRefined
CHECK_DEADLOCK FALSE
