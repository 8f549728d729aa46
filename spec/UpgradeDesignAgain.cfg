SPECIFICATION Spec
CONSTANTS
 Size <- SizeOf
 Func = 3
 MaxRecords = 0
 MaxKills = 0
 Procs = {1, 2}
 Design = "again"
INVARIANTS AllOrNothing Once Fitting
PROPERTY Remain
CHECK_DEADLOCK FALSE
