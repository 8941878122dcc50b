SPECIFICATION Spec
CONSTANTS NSim = 2
 NEff = 2
INVARIANTS NeverCountsFailures StopsAtFirstEmpty Emitted
CHECK_DEADLOCK FALSE
