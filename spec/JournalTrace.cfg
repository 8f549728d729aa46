CONSTANT HS = 41
SPECIFICATION Spec
INVARIANTS PowerSafeT ProcessSafeT
CHECK_DEADLOCK TRUE
