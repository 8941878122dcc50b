SPECIFICATION Spec
CONSTANTS NPar = 3
 NData = 3
 MaxLen = 4
 Histories = TRUE
VIEW View
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
