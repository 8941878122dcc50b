SPECIFICATION Spec
CONSTANTS U = 5
 T = 4
 MaxClass = 5
 MinObs = 4
INVARIANT Complete
CHECK_DEADLOCK FALSE
