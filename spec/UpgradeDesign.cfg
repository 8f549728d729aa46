SPECIFICATION Spec
CONSTANTS
 Size <- SizeOf
 Func = 3
 MaxRecords = 2
 MaxKills = 1
 Procs = {1, 2}
 Design = "code"
INVARIANTS AllOrNothing Once Fitting
PROPERTY Remain
CHECK_DEADLOCK FALSE
