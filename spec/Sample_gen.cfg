SPECIFICATION GSpec
CONSTANTS MaxLen = 3
INVARIANTS GEmit
CHECK_DEADLOCK FALSE
