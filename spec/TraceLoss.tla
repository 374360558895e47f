----------------------------- MODULE TraceLoss -----------------------------
EXTENDS TraceLib, Loss
Fn == INSTANCE FnLib
LossClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.op = "lipschitz" THEN
    IF s.exc # "" THEN [no_exception |-> FALSE]
    ELSE [upper_bound |-> \A j \in 1..Len(s.dirs) : DLe(Curv(s.kind, s.x, s.p, s.dirs[j]), DMul("1.00001", DMul(s.y[s.coord[j]], VSqNorm(s.dirs[j]))))]
  ELSE Fn!FnClauses(L, s, "1E-11", "1E-12", "1E-6")
=============================================================================
