SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Same Nested Verdict
CHECK_DEADLOCK FALSE
