----------------------------- MODULE TraceReport -----------------------------
(* Reported quantities of real executions against the objective evaluated by  *)
(* the specification at the returned parameters.                              *)
EXTENDS TraceLib, FirstOrder
R == INSTANCE Report
Sz(v) == DAdd(1, IF VFin(v) THEN VMaxAbs(v) ELSE 0)
VNear(a, b) == VClose(a, b, "1E-8", DMul("1E-9", DAdd(Sz(a), IF VFin(b) THEN VMaxAbs(b) ELSE 0)))
\* size of the terms that are added up, for cancellation
Bulk(o, x) == DAdd(1, DAdd(DMul(VMaxAbs(o.c), Sz(x)), DAdd(DAbs(VDot(x, MVec(o.Q, x))), VSum([i \in 1..Len(x) |-> DMul(o.q[i], Pow4(x[i]))]))))
GBulk(o, x) == DAdd(1, DAdd(VMaxAbs(o.c), DAdd(VMaxAbs(MVec(o.Q, x)), VMaxAbs([i \in 1..Len(x) |-> DMul(o.q[i], DMul(x[i], DSq(x[i])))]))))
Aux(x) == [i \in 1..Len(x) |-> DAdd(x[i], 1)] \o <<VSqNorm(x)>>
\* what stays reported at the current iterate
Here(t, s) ==
  LET g == DF(t.o, s.x)  gb == GBulk(t.o, s.x)
      e == R!Measure(t.kind, s.x, g, t.l, t.u)
  IN IF s.exc # "" THEN [no_exception |-> FALSE]
     ELSE [value |-> DClose(s.value, F(t.o, s.x), "1E-9", DMul("1E-10", Bulk(t.o, s.x))),
           gradient |-> s.grad = <<>> \/ VClose(s.grad, g, "1E-8", DMul("1E-9", gb)),
           aux |-> ~t.aux \/ VNear(s.aux, Aux(s.x)),
           error |-> IF s.init THEN TRUE ELSE DClose(s.error, e, "1E-7", DMul("1E-9", gb)),
           certified |-> (s.done /\ DLe(s.error, t.tol)) => DLe(e, DAdd(t.tol, DMul("1E-8", gb)))]
\* proximal methods without acceleration: error = |x2 - x| / stepsize bounds the
\* fixed-point residual of the returned point (step at most 1/L, convex)
PG(t, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET z == StepFrom(t.o, s.x, t.s)
       IN [certified |-> DLe(s.error, t.tol) => DLe(VNorm(VSub(z, s.x)), DAdd(DMul("2.01", DMul(t.s, t.tol)), "1E-9"))]
\* x2 = T(x), error = |x2 - x|, aux of the point the map was applied to
T(t, x) == VAdd(MVec(t.A, x), t.b)
FP(t, a, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [fixed_point |-> VNear(s.x, T(t, a.x)), error |-> DClose(s.error, VNorm(VSub(s.x, a.x)), "1E-8", DMul("1E-9", Sz(s.x))),
        aux |-> ~t.aux \/ VNear(s.aux, Aux(a.x))]
FPRun(t, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  \* contraction by 0.9: the residual does not grow
  ELSE [certified |-> (s.done /\ DLe(s.error, t.tol)) => DLe(VNorm(VSub(T(t, s.x), s.x)), DAdd(t.tol, DMul("1E-9", Sz(s.x))))]
Root(t, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET v == DF(t.o, s.x)
       IN [value |-> s.init \/ VClose(s.value, v, "1E-8", DMul("1E-9", GBulk(t.o, s.x))),
           error |-> s.init \/ DClose(s.error, VNorm(v), "1E-7", DMul("1E-9", GBulk(t.o, s.x))),
           aux |-> ~t.aux \/ VNear(s.aux, Aux(s.x)),
           certified |-> (s.done /\ DLe(s.error, t.tol)) => DLe(VNorm(v), DAdd(t.tol, DMul("1E-8", GBulk(t.o, s.x))))]
ReportClauses(t, i) ==
  LET s == t.steps[i] IN
  CASE t.kind \in {"smooth", "box"} -> Here(t, s)
    [] t.kind = "pg" -> PG(t, s)
    [] t.kind = "fp" -> IF s.done THEN FPRun(t, s) ELSE IF i = 1 THEN [no_exception |-> s.exc = ""] ELSE FP(t, t.steps[i-1], s)
    [] t.kind = "root" -> Root(t, s)
=============================================================================
