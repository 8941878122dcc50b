SPECIFICATION Spec
CONSTANTS U = 3
 T = 3
 MaxClass = 1
 MinObs = 1
INVARIANT Complete
CHECK_DEADLOCK FALSE
