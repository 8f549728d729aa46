SPECIFICATION Spec
CONSTANT Design = "swap"
INVARIANT Safe
CHECK_DEADLOCK FALSE
