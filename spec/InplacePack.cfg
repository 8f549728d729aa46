SPECIFICATION Spec
CONSTANT Design = "sync"
INVARIANT Safe
CHECK_DEADLOCK FALSE
