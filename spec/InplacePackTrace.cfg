SPECIFICATION TSpec
CONSTANT Design = "sync"
INVARIANT Safe
CHECK_DEADLOCK TRUE
