SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Sound
CHECK_DEADLOCK FALSE
