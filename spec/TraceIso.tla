------------------------------- MODULE TraceIso -------------------------------
EXTENDS TraceLib, Isotonic
Fn == INSTANCE FnLib
IsoClauses(t, i) == LET s == t.steps[i] IN Fn!FnClauses(Iso, s, t.tol, t.tol, "1E-6")
=============================================================================
