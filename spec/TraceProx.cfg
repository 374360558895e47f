INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- ProxClauses
CHECK_DEADLOCK FALSE
