INIT BInit
NEXT BNext
CONSTANT K = 6
INVARIANTS Width Bracket Fresh Near
PROPERTY Nested
CHECK_DEADLOCK FALSE
