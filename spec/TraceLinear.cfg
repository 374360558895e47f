INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- LinClauses
CHECK_DEADLOCK FALSE
