SPECIFICATION Spec
CONSTANTS
  MaxId = 4
  Reader = "ascending"
  Ends = "right"
INVARIANTS Lists Fresh Agree
CHECK_DEADLOCK FALSE
