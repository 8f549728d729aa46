CONSTANTS N = 2
 X = 1
 Bytes = {1, 2}
 MaxSize = 5
 MaxWrite = 4
 Design = "flush"
SPECIFICATION Spec
INVARIANTS Sees Where Good Fits
CHECK_DEADLOCK FALSE
