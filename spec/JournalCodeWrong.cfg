SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2}
  Length = 3
  Wrong = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
