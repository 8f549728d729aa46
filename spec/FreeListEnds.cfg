SPECIFICATION Spec
CONSTANTS
  MaxId = 4
  Reader = "same"
  Ends = "wrong"
INVARIANTS Lists Fresh Agree
CHECK_DEADLOCK FALSE
