SPECIFICATION Spec
CONSTANTS
  MaxId = 6
  Reader = "same"
  Ends = "right"
INVARIANTS Lists Fresh Agree
CHECK_DEADLOCK FALSE
