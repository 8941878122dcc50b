SPECIFICATION Spec
CONSTANTS NSim = 3
 NEff = 1
INVARIANTS NeverCountsFailures StopsAtFirstEmpty Emitted
CHECK_DEADLOCK FALSE
