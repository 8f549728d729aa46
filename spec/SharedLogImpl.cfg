CONSTANTS Writers = {1} Readers = {3} None = None MaxTx = 2 MaxKill = 1 EarlySize = FALSE LateFlush = FALSE
SPECIFICATION Spec
INVARIANTS Whole ViewsArePrefixes Alone Once NotLost
PROPERTIES LogGrows SharedRefined
CHECK_DEADLOCK FALSE
