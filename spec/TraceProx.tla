----------------------------- MODULE TraceProx -----------------------------
EXTENDS TraceLib, FnLib, Prox
ProxClauses(t, i) == FnClauses(Prox, t.steps[i], "1E-10", "1E-11", "1E-7")
=============================================================================
