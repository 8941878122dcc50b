SPECIFICATION Spec
CONSTANTS U = 4
 T = 2
 MaxClass = 1
 MinObs = 1
INVARIANT Complete
CHECK_DEADLOCK FALSE
