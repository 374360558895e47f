INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- LineClauses
CHECK_DEADLOCK FALSE
