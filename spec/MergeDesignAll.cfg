SPECIFICATION Spec
CONSTANTS
 N = 2
 Design = "all"
INVARIANT Correct
CHECK_DEADLOCK FALSE
