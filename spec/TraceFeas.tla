------------------------------ MODULE TraceFeas ------------------------------
(* Every recorded iterate must lie in the set; where the solver reports an      *)
(* error not above t.tol, the point must be stationary up to t.factor * tol.     *)
EXTENDS TraceLib
Fs == INSTANCE Feas
FinMax(p) == LET G[k \in 0..Len(p)] == IF k = 0 THEN "0" ELSE DMax(G[k-1], VMaxAbs([i \in 1..Len(p[k]) |-> IF DIsFin(p[k][i]) THEN p[k][i] ELSE "0"])) IN G[Len(p)]
Eps(t, s) == DMul(t.slack, DAdd(1, DMul(DAdd(1, FinMax(t.p)), DAdd(1, IF VFin(s.x) THEN VMaxAbs(s.x) ELSE 0))))
Mirror(x, g) == LET m == VDot(g, x) IN VMaxAbs([i \in 1..Len(x) |-> DMul(x[i], DSub(g[i], m))])
FeasClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [finite |-> VFin(s.x),
        inside |-> VFin(s.x) => Fs!In(t.set, s.x, t.p, Eps(t, s)),
        stationary |-> (t.factor # "none" /\ s.done /\ VFin(s.x)) =>
           DLe(IF t.mirror THEN Mirror(s.x, s.g) ELSE Fs!Residual(t.set, s.x, s.g, t.p), DAdd("1E-9", DMul(t.factor, t.tol)))]
=============================================================================
