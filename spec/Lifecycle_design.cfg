SPECIFICATION Spec
CONSTANTS NPar = 3
 NData = 3
 MaxLen = 10
 Histories = FALSE
VIEW View
PROPERTIES HistoryFree FailuresAreHarmless Separate
CHECK_DEADLOCK FALSE
