SPECIFICATION Spec
CONSTANTS
 N = 2
 Design = "count"
INVARIANT Correct
CHECK_DEADLOCK FALSE
