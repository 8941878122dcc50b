SPECIFICATION Spec
CONSTANT Sizes <- S_honest
INVARIANT Complete
CHECK_DEADLOCK FALSE
