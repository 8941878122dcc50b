SPECIFICATION Spec
CONSTANTS K = 3
 N = 5
 MaxEntry = 1
INVARIANT Complete
CHECK_DEADLOCK FALSE
