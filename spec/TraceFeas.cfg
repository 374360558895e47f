INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- FeasClauses
CHECK_DEADLOCK FALSE
