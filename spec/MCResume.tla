------------------------------ MODULE MCResume -------------------------------
EXTENDS Resume
View == <<cur, saved, ok, Len(sched)>>
=============================================================================
