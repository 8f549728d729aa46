SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK TRUE
