CONSTANTS Client = {"c", "d"}
 Thread = {"a", "b"}
 MaxCalls = 3
 Design = "early"
SPECIFICATION Spec
INVARIANTS Good Once Before
PROPERTY Done
CHECK_DEADLOCK FALSE
