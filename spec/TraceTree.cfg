INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- TreeClauses
CHECK_DEADLOCK FALSE
