INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- RunClauses
CHECK_DEADLOCK FALSE
