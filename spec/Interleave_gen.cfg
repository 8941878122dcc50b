SPECIFICATION GSpec
CONSTANTS N = 2 MaxLen = 4
INVARIANTS GEmit
CHECK_DEADLOCK FALSE
