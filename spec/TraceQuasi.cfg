INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- QuasiClauses
CHECK_DEADLOCK FALSE
