SPECIFICATION TraceSpec
CONSTANT Verdict <- Clauses
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
