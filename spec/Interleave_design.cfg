SPECIFICATION Spec
CONSTANTS N = 6 MaxLen = 0
INVARIANTS Isolated
CHECK_DEADLOCK FALSE
