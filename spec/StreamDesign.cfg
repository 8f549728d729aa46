CONSTANTS Size = 4
 Design = "direction"
SPECIFICATION Spec
INVARIANTS Same Good
CHECK_DEADLOCK FALSE
