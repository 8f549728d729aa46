CONSTANT MaxError = 4096
SPECIFICATION Spec
CHECK_DEADLOCK TRUE
