----------------------------- MODULE TraceLinear -----------------------------
EXTENDS TraceLib, Refine
Err0(s) == DAdd("1E-30", VNorm(s.b))
SolveClauses(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET M == System(s.kind, s.A, s.ridge)
           c == Rhs(s.kind, s.A, s.b)
       IN [structure |-> s.struct,
           residual |-> DLe(VNorm(Residual(M, s.x, c)), DMul(s.tol, DAdd(VNorm(c), DMul(s.scale, VNorm(s.x))))),
           solution |-> s.cond # "" => VClose(s.x, MSolve(M, c), DMul(s.cond, s.tol), DMul(DMul(s.cond, s.tol), VNorm(s.x)))]
\* reverse-mode derivative in b (cotangent w): M^T g = w   (normal: A M^-1 w)
GradClauses(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET M == System(s.kind, s.A, s.ridge)
           g == IF s.kind = "normal_cg" THEN MVec(s.A, MSolve(M, s.w)) ELSE MSolve(Tr(M), s.w)
       IN [gradient |-> VClose(s.g, g, "1E-5", DMul("1E-5", VNorm(g)))]
\* one refinement step with an exact inner solver on Abar (+ ridge)
RefineClauses(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET corr == MSolve(AddRidge(s.Abar, s.ridge), s.r0)
           sc == DAdd(1, DAdd(VNorm(s.b), VNorm(s.x)))
       IN [initial_residual |-> s.k = 0 => VClose(s.r0, Residual(s.A, s.x0, s.b), "1E-9", "1E-9"),
           correction |-> s.exact => VClose(s.x, StepTo(s.x0, corr), "1E-7", DMul("1E-8", sc)),
           residual |-> VClose(s.r, Residual(s.A, s.x, s.b), "1E-7", DMul("1E-10", DMul(sc, s.scale))),
           error |-> DClose(s.error, VNorm(s.r), "1E-9", "1E-13"),
           fresh_start |-> \A i \in 1..Len(s.init) : DEq(s.init[i], 0),
           iter_num |-> DEq(s.iter_num, s.k + 1),
           counts |-> VClose(s.counts, <<s.k + 2, s.k + 1, s.k + 1>>, 0, 0),
           structure |-> s.struct]
RunClauses(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET r == Residual(s.A, s.x, s.b)  sc == DMul(s.scale, DAdd(1, DAdd(VNorm(s.b), VNorm(s.x)))) IN
    [error_is_residual |-> s.error = "" \/ DClose(s.error, VNorm(r), "1E-6", DMul("1E-12", sc)),
     stops_for_a_reason |-> s.error = "" \/ DLe(s.error, s.tol) \/ DEq(s.iter_num, s.maxiter),
     converges |-> s.must => DLe(VNorm(r), DAdd(DMul("1.001", s.tol), DMul("1E-13", sc))),
     structure |-> s.struct]
OpClauses(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET want == CASE s.kind = "matvec" -> MVec(s.A, s.x)
                     [] s.kind = "rmatvec" -> MTVec(s.A, s.x)
                     [] s.kind = "normal" -> MTVec(s.A, MVec(s.A, s.x))
                     [] s.kind = "diag" -> [i \in 1..Len(s.A) |-> s.A[i][i]]
                     [] s.kind = "colsq" -> [j \in 1..Len(s.A[1]) |-> VSqNorm(Tr(s.A)[j])]
                     [] s.kind = "col" -> [j \in 1..Len(s.A[1]) |-> VNorm(Tr(s.A)[j])]
                     [] s.kind = "optimality" -> Residual(s.A, s.x, s.b)
                     [] s.kind = "optnorm" -> <<VNorm(Residual(s.A, s.x, s.b))>>
       IN [value |-> VClose(s.y, want, "1E-10", "1E-12")]
LinClauses(t, i) ==
  LET s == t.steps[i] IN
  CASE s.op = "solve" -> SolveClauses(s)
    [] s.op = "grad" -> GradClauses(s)
    [] s.op = "refine" -> RefineClauses(s)
    [] s.op = "run" -> RunClauses(s)
    [] s.op = "operator" -> OpClauses(s)
=============================================================================
