INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- StochClauses
CHECK_DEADLOCK FALSE
