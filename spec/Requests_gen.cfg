SPECIFICATION GSpec
CONSTANTS
  MaxFaults = 2
  MaxSubmit = 0
INVARIANTS GEmit
CHECK_DEADLOCK FALSE
