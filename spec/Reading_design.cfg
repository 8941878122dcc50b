SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Pure Nearest
CHECK_DEADLOCK FALSE
