INIT TraceInit
NEXT TraceNext
CONSTANT StepClauses <- ImplicitClauses
CHECK_DEADLOCK FALSE
