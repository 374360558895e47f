INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- QPClauses
CHECK_DEADLOCK FALSE
