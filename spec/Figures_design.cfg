SPECIFICATION Spec
CONSTANTS MaxCalls = 3
 Values = {1, 2}
INVARIANTS Once InOrder Faithful Apart
PROPERTIES Stays
CHECK_DEADLOCK FALSE
