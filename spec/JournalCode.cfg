SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2}
  Length = 3
  Wrong = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
