SPECIFICATION Spec
CONSTANTS
 N = 3
 Design = "size"
INVARIANT Correct
CHECK_DEADLOCK FALSE
