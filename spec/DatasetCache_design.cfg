SPECIFICATION Spec
CONSTANTS DS = {"a", "b"}
 MaxVersion = 4
 MaxLen = 12
 Histories = FALSE
VIEW View
INVARIANTS WholeCopies
PROPERTIES Replaced Freshest KeepsCopy Refreshes
CHECK_DEADLOCK FALSE
