SPECIFICATION Spec
CONSTANTS U = 3
 T = 3
 MaxClass = 4
 MinObs = 2
INVARIANT Complete
CHECK_DEADLOCK FALSE
