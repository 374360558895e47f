------------------------------ MODULE TraceScipy ------------------------------
(* Recorded wrapper calls: the tree handed back, the numbers reported, and the   *)
(* same run made directly with SciPy on the flat problem.                        *)
EXTENDS TraceLib
Fl == INSTANCE Flatten
Same(a, b, r, e) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VClose(a[k], b[k], r, e)
Tree(s) == [structure |-> s.structure /\ Fl!Shapes(s.leaves) = s.shapes /\ s.dtypes = s.dtypes0,
            flat |-> Fl!Flat(s.leaves) = s.x,
            scipy_params |-> VClose(s.x, s.ref.x, s.rtol, s.rtol),
            scipy_counts |-> s.counts = s.ref.counts,
            scipy_verdict |-> s.success = s.ref.success /\ s.status = s.ref.status,
            untouched |-> s.untouched]
ScipyClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF t.what \in {"min", "bounded"} THEN Tree(s) @@
    [value |-> DClose(s.fun, Fl!Objective(s.o, s.x), "1E-9", "1E-10"),
     callbacks |-> Same(s.seen, s.ref.seen, s.rtol, s.rtol),
     inside |-> Len(s.lo) = 0 \/ \A k \in 1..Len(s.x) : DLe(DSub(s.lo[k], s.slack), s.x[k]) /\ DLe(s.x[k], DAdd(s.hi[k], s.slack)),
     curvature |-> Same(s.hess, s.ref.hess, "1E-6", "1E-8")]
  ELSE IF t.what = "root" THEN Tree(s) @@
    [value |-> s.exact => VClose(s.fun, Fl!Residual(s.o, s.x), "1E-8", "1E-9"),
     scipy_value |-> VClose(s.fun, s.ref.fun, s.rtol, s.rtol)]
  ELSE LET r == Fl!Residual(s.o, s.x) \o Fl!Extra(s.o, s.x) IN Tree(s) @@
    [value |-> VClose(s.fun, r, "1E-9", "1E-10"),
     cost |-> DClose(s.cost, Fl!Cost(s.loss, s.fscale, r), "1E-8", "1E-12"),
     error |-> DClose(s.error, s.ref.error, "1E-6", s.rtol),
     inside |-> Len(s.lo) = 0 \/ \A k \in 1..Len(s.x) : DLe(s.lo[k], s.x[k]) /\ DLe(s.x[k], s.hi[k])]
=============================================================================
