CONSTANTS Size = 4
 Design = "size"
SPECIFICATION Spec
INVARIANTS Same Good
CHECK_DEADLOCK FALSE
