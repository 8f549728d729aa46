CONSTANTS Size = 4
 Design = "position"
SPECIFICATION Spec
INVARIANTS Same Good
CHECK_DEADLOCK FALSE
