SPECIFICATION Spec
CONSTANTS
 Bytes = {0, 10, 32, 34, 92, 63, 120, 48, 65, 127, 128, 191, 195, 226, 237, 240, 255}
 N = 3
INVARIANTS Back Then
CHECK_DEADLOCK FALSE
