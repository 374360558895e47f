INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- LMClauses
CHECK_DEADLOCK FALSE
