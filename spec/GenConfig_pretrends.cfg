SPECIFICATION Spec
CONSTANT Sizes <- S_pretrends
INVARIANT Complete
CHECK_DEADLOCK FALSE
