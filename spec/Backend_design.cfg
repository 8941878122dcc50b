SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
INVARIANTS ForcedPython NeverHalf RefusedOnlyWhenForced FastIsUsable PurePython GivingUpIsTold Memoryless
PROPERTIES Fixed
CHECK_DEADLOCK FALSE
