SPECIFICATION Spec
CONSTANTS
 Size <- SizeOf
 Func = 3
 MaxRecords = 1
 MaxKills = 1
 Procs = {1, 2}
 Design = "checkpoints"
INVARIANTS AllOrNothing Once Fitting
PROPERTY Remain
CHECK_DEADLOCK FALSE
