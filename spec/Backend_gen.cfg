SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 2
INVARIANTS GEmit
CHECK_DEADLOCK FALSE
