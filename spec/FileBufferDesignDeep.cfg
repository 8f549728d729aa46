CONSTANTS N = 3
 X = 1
 Bytes = {1, 2}
 MaxSize = 6
 MaxWrite = 4
 Design = "flush"
SPECIFICATION Spec
INVARIANTS Sees Where Good Fits
CHECK_DEADLOCK FALSE
