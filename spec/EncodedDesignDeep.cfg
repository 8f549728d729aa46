CONSTANTS W = 2
 Size = 4
 MaxBlocks = 3
 Design = "code"
SPECIFICATION Spec
INVARIANT Good
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
