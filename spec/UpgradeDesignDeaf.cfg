SPECIFICATION Spec
CONSTANTS
 Size <- SizeOf
 Func = 3
 MaxRecords = 1
 MaxKills = 0
 Procs = {1, 2}
 Design = "deaf"
INVARIANTS AllOrNothing Once Fitting
PROPERTY Remain
CHECK_DEADLOCK FALSE
