CONSTANTS HS = 2
 MaxPos = 5
 MaxCrash = 2
SPECIFICATION Spec
INVARIANTS PowerSafeD ProcessSafeD CanReopen
CHECK_DEADLOCK FALSE
