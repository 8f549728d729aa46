SPECIFICATION Spec
CONSTANTS
 Size <- SizeOf
 Func = 3
 MaxRecords = 3
 MaxKills = 2
 Procs = {1, 2, 3}
 Design = "code"
INVARIANTS AllOrNothing Once Fitting
PROPERTY Remain
CHECK_DEADLOCK FALSE
