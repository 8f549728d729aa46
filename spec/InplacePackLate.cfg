SPECIFICATION Spec
CONSTANT Design = "late"
INVARIANT Safe
CHECK_DEADLOCK FALSE
