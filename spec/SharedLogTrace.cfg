CONSTANT Proc = {1, 2, 3, 4, 5, 8, 9}
CONSTANT None = None
SPECIFICATION Spec
INVARIANTS Alone ViewsArePrefixes
PROPERTY LogGrows
CHECK_DEADLOCK TRUE
