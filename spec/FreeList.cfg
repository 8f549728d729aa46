SPECIFICATION Spec
CONSTANTS
  MaxId = 4
  Reader = "same"
  Ends = "right"
INVARIANTS Lists Fresh Agree
CHECK_DEADLOCK FALSE
