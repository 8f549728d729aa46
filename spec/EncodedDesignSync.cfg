CONSTANTS W = 2
 Size = 4
 MaxBlocks = 2
 Design = "sync"
SPECIFICATION Spec
INVARIANT Good
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
