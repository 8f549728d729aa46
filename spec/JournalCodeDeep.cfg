SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2}
  Length = 4
  Wrong = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
