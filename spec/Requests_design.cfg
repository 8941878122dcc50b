SPECIFICATION Spec
CONSTANTS
  MaxFaults = 1
  MaxSubmit = 2
INVARIANTS Classes Named Monotone HeldIsLastAnswer RefusedRaise
CHECK_DEADLOCK FALSE
