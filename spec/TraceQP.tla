------------------------------- MODULE TraceQP -------------------------------
(* Recorded runs and iterations of the quadratic-programme solvers against QP. *)
EXTENDS TraceLib
Q1 == INSTANCE QP
N1(v) == VSum([i \in 1..Len(v) |-> DAbs(v[i])])
Small(v, eps) == VFin(v) /\ DLe(IF Len(v) = 0 THEN 0 ELSE VMaxAbs(v), eps)
MaxZ(v) == IF Len(v) = 0 THEN "0" ELSE VMaxAbs(v)
\* codes of the documented statuses
Unsolved == 0
Solved == 1
DualInf == 2
PrimalInf == 3
Verdict(s) ==
  /\ s.status \in {Unsolved, Solved, DualInf, PrimalInf}
  /\ s.status = Solved => s.kind = "solved"
  /\ s.status = PrimalInf => s.kind \in {"infeasible", "neither"}
  /\ s.status = DualInf => s.kind \in {"unbounded", "neither"}
  /\ s.must => s.status # Unsolved
BoxOk(s) ==
  LET p == s.p
      r1 == Q1!Stationarity(p, s.x, s.y)
      r2 == VSub(MVec(p.A, s.x), s.z)
  IN [finite |-> VFin(s.x) /\ VFin(s.z) /\ VFin(s.y) /\ DIsFin(s.error),
      stationary |-> Small(r1, DMul("1.0001", s.tol)),
      primal |-> Small(r2, DMul("1.0001", s.tol)),
      inside |-> DLe(Q1!Violation(p, s.z), "1E-12"),
      slack |-> DLe(Q1!Slack(p, s.z, s.y), DMul("1E-9", DAdd(1, DAdd(MaxZ(s.z), MaxZ(s.y))))),
      multipliers |-> /\ VClose(s.mu, [i \in 1..Len(s.y) |-> Q1!Pos(s.y[i])], "1E-12", "1E-12")
                      /\ VClose(s.phi, [i \in 1..Len(s.y) |-> DNeg(Q1!Neg(s.y[i]))], "1E-12", "1E-12"),
      error |-> DClose(s.error, DMax(MaxZ(r1), MaxZ(r2)), "1E-6", DMul("1E-6", s.tol)) /\ DLe(s.error, s.tol),
      value |-> DLe(DAbs(DSub(Q1!Objective(p, s.x), Q1!Objective(p, s.xs))),
                    DMul(s.tol, DAdd(1, DMul(3, DAdd(N1(VSub(s.x, s.xs)), DAdd(N1(s.y), N1(s.ys)))))))]
RunOk(s) == IF s.status = Solved THEN BoxOk(s) ELSE [ok |-> TRUE]
\* one iteration of the splitting
SplitOk(s) ==
  LET n == Q1!Split(s.p, s.x, s.z, s.y, s.rho, s.sigma, s.relax)
      r1 == Q1!Stationarity(s.p, s.x1, s.y1)
      r2 == VSub(MVec(s.p.A, s.x1), s.z1)
  IN [split_x |-> VClose(s.x1, n.x, "1E-7", "1E-8"), split_z |-> VClose(s.z1, n.z, "1E-7", "1E-8"), split_y |-> VClose(s.y1, n.y, "1E-7", "1E-8"),
      counted |-> s.n1 = s.n + 1,
      residuals |-> VClose(s.rp, r2, "1E-8", "1E-8") /\ VClose(s.rd, r1, "1E-8", "1E-8"),
      rate |-> IF s.n % s.rfreq = 0 THEN DLe(s.rmin, s.rho1) /\ DLe(s.rho1, s.rmax) ELSE DEq(s.rho1, s.rho),
      checked |-> IF s.n % s.tfreq = 0 THEN DClose(s.e1, DMax(MaxZ(r1), MaxZ(r2)), "1E-7", "1E-8") ELSE DEq(s.e1, s.e),
      status |-> IF s.n % s.tfreq = 0 THEN s.st1 = (IF DLe(s.e1, s.tol) THEN Solved ELSE Unsolved) ELSE s.st1 = s.st]
\* problems given with separate equalities and inequalities
FormOk(s) ==
  LET p == Q1!Stack(s.q)
      y == s.y \o s.mu
      scale == DAdd(1, DAdd(MaxZ(y), MaxZ(s.x)))
      eps == DMul(s.tol, scale)
  IN IF s.status # Solved THEN [ok |-> TRUE]
     ELSE [blocks |-> Len(s.y) = Len(s.q.b) /\ Len(s.mu) = Len(s.q.h) /\ s.noney = (Len(s.q.b) = 0) /\ s.nonemu = (Len(s.q.h) = 0),
           finite |-> VFin(s.x) /\ VFin(y),
           stationary |-> Len(y) = Len(p.A) => Small(Q1!Stationarity(p, s.x, y), eps),
           feasible |-> DLe(Q1!Violation(p, MVec(p.A, s.x)), eps),
           sign |-> \A i \in 1..Len(s.mu) : DLe(DNeg(eps), s.mu[i]),
           slack |-> Len(s.mu) = Len(s.q.h) => \A i \in 1..Len(s.q.h) : DLe(DMin(s.mu[i], DSub(s.q.h[i], VDot(s.q.G[i], s.x))), eps),
           value |-> Len(s.xs) = 0 \/ DLe(DAbs(DSub(Q1!Objective(p, s.x), Q1!Objective(p, s.xs))), DMul(DMul(5, s.tol), DAdd(1, DMul(3, DAdd(N1(VSub(s.x, s.xs)), DAdd(N1(y), N1(s.ys)))))))]
MeasureOk(s) ==
  LET r == IF s.box THEN Q1!BoxResiduals(s.p, s.x, s.z, s.y, s.mu, s.phi) ELSE Q1!Residuals(s.q, s.x, s.y, s.mu)
  IN [measure |-> DClose(s.l2, VNorm(r), "1E-9", "1E-10")]
CdOk(s) ==
  LET w == Q1!Sweep(s.p, s.x)
  IN [sweep |-> VClose(s.x1, w, "1E-10", "1E-12"),
      error |-> DClose(s.e1, N1(VSub(w, s.x)), "1E-8", "1E-11"),
      counted |-> s.n1 = s.n + 1,
      optimal |-> s.final => LET m == DMul(s.tol, DMul(4, DAdd(1, VSum([i \in 1..Len(s.p.Q) |-> N1(s.p.Q[i])]))))
                             IN DLe(s.e1, s.tol) => Q1!Optimal(s.p, s.x1, VScale(-1, VAdd(MVec(s.p.Q, s.x1), s.p.c)), m)]
QPClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF t.what = "run" THEN [verdict |-> Verdict(s)] @@ RunOk(s)
  ELSE IF t.what = "split" THEN SplitOk(s)
  ELSE IF t.what = "form" THEN [verdict |-> Verdict(s)] @@ FormOk(s)
  ELSE IF t.what = "measure" THEN MeasureOk(s)
  ELSE CdOk(s)
=============================================================================
