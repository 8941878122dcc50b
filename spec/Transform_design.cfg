SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Laws
CHECK_DEADLOCK FALSE
