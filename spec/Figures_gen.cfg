SPECIFICATION Spec
CONSTANTS MaxCalls = 3
 Values = {0}
INVARIANTS GEmit
CHECK_DEADLOCK FALSE
