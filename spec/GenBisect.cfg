INIT BInit
NEXT BNext
CONSTANT K = 4
INVARIANT Gen
CHECK_DEADLOCK FALSE
