SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS GEmit
CHECK_DEADLOCK FALSE
