INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- ScipyClauses
CHECK_DEADLOCK FALSE
