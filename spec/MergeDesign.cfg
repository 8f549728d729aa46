SPECIFICATION Spec
CONSTANTS
 N = 2
 Design = "size"
INVARIANT Correct
CHECK_DEADLOCK FALSE
