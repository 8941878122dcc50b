SPECIFICATION Spec
CONSTANTS DS = {"a"}
 MaxVersion = 4
 MaxLen = 4
 Histories = TRUE
VIEW View
INVARIANTS WholeCopies Emitted
CHECK_DEADLOCK FALSE
