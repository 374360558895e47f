------------------------------- MODULE TraceLM ------------------------------
EXTENDS TraceLib, LeastSq
Near(a, b, s) == DClose(a, b, "1E-9", DMul("1E-9", s))
VNear(a, b, s) == VClose(a, b, "1E-9", DMul("1E-9", s))
Same(a, b) == VClose(a, b, "1E-13", 0)
One(x) == DAdd(1, x)
\* what the state must say about the point p (r, J: residual and Jacobian there)
Reported(s, r, J) ==
  [residual |-> VNear(s.residual, r, "1"),
   value |-> Near(s.value, Loss(r), "1"),
   gradient |-> VNear(s.gradient, Grad(J, r), One(VNorm(r))),
   aux |-> VNear(s.aux, s.auxwant, "1"),
   jacobian |-> s.jac # <<>> => /\ \A i \in 1..Len(J) : VNear(s.jac[i], J[i], "1")
                                /\ \A j \in 1..Len(s.jt) : VNear(s.jt[j], Col(J, j), "1")
                                /\ LET G == Gram(J) IN \A j \in 1..Len(G) : VNear(s.jtj[j], G[j], VMaxAbs(G[j])),
   hessian |-> s.hess # <<>> => \A i \in 1..Len(s.hess) : \A j \in 1..Len(s.hess[i]) : VNear(s.hess[i][j], s.hesswant[i][j], "1"),
   iter_num |-> s.iter_num = s.k]
LMInit(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE Reported(s, s.r, s.J) @@
    [damping |-> Near(s.mu, Mu0(s.J, s.tau), s.mu), increase |-> DEq(s.nu, 2),
     error |-> Near(s.error, VNorm(Grad(s.J, s.r)), One(VNorm(s.r))),
     params |-> \A i \in 1..Len(s.delta) : DEq(s.delta[i], 0)]
\* s0 the recorded state before, s the one after; s.rt residual at the trial point p + delta
LMStep(t, s0, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE
  LET J == s0.J  r == s0.r  g == Grad(J, r)  mu == s0.mu
      v == Velocity(J, r, mu)
      a == IF t.geo /\ v # <<>> THEN Accel(J, s0.H, mu, v) ELSE VZero(Len(g))
      F == Loss(r)  Ft == Loss(s.rt)
      gain == Gain(F, Ft, s.delta, mu, g)
      ratio == IF t.geo THEN DDiv(VNorm(a), VNorm(v)) ELSE "0"
      ok == DLt(0, gain) /\ DLt(Ft, F) /\ DLe(ratio, "0.75")
      \* too close to call in floating point
      near == \/ DIsFin(Ft) /\ DLe(DAbs(DSub(F, Ft)), DMul("1E-11", DAdd(F, "1E-12")))
              \/ t.geo /\ DClose(ratio, "0.75", "1E-3", 0)
              \/ DLe(DAbs(Predicted(s.delta, mu, g)), DMul("1E-11", DAdd(DAbs(VDot(s.delta, g)), "1E-20")))
      accepted == DEq(s.nu, 2)
      pt == VAdd(s0.p, s.delta)
  IN Reported(s, s.r, s.J) @@
     [step |-> (t.cond # "" /\ v # <<>>) =>
                   VClose(s.delta, Trial(v, a), DMul(t.cond, t.rtol), DMul("1E-12", One(VNorm(s0.p)))),
      accepts_decrease |-> (ok /\ ~near) => accepted,
      rejects_increase |-> (~ok /\ ~near) => ~accepted,
      moves_to_trial |-> accepted => VClose(s.p, pt, "1E-12", "1E-14"),
      stays_when_rejected |-> ~accepted => /\ s.p = s0.p /\ Same(s.residual, s0.residual) /\ Same(s.gradient, s0.gradient)
                                           /\ Same(<<s.value, s.error>>, <<s0.value, s0.error>>) /\ Same(s.aux, s0.aux)
                                           /\ \A i \in 1..Len(s.jac) : Same(s.jac[i], s0.jac[i]),
      damping |-> IF accepted THEN near \/ DClose(s.mu, MuAccept(mu, gain), "1E-6", DMul(mu, DAdd("1E-6", DMul("1E-12", DDiv(F, DAbs(DSub(F, Ft)))))))
                  ELSE DClose(s.mu, MuReject(mu, s0.nu), "1E-12", 0) /\ DEq(s.nu, NuReject(s0.nu)),
      error |-> Near(s.error, VNorm(s.gradient), "0"),
      never_increases |-> DLe(s.value, DMul(s0.value, "1.00000000001")) ]
GNStep(t, s0, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET J == s0.J  r == s0.r  g == Grad(J, r)
           lhs == MVec(Gram(J), s.delta)
       IN [normal_equations |-> DLe(VNorm(VSub(lhs, g)), DAdd(DMul("2E-5", VNorm(g)), "1E-12")),
           moves |-> VClose(s.p, VSub(s0.p, s.delta), "1E-12", "1E-14"),
           \* Gauss-Newton reports the quantities of the point it linearised at
           residual |-> VNear(s.residual, r, "1"), value |-> Near(s.value, Loss(r), "1"),
           gradient |-> VNear(s.gradient, g, One(VNorm(r))), aux |-> VNear(s.aux, s0.auxwant, "1"),
           error |-> Near(s.error, VNorm(s.delta), "0"), iter_num |-> s.iter_num = s.k]
GNInit(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [residual |-> VNear(s.residual, s.r, "1"), value |-> Near(s.value, Loss(s.r), "1"),
        gradient |-> VNear(s.gradient, Grad(s.J, s.r), One(VNorm(s.r))), aux |-> VNear(s.aux, s.auxwant, "1"),
        error |-> s.error = "inf", iter_num |-> s.iter_num = 0]
LMClauses(t, i) ==
  LET s == t.steps[i] IN
  CASE t.kind = "lm" -> IF i = 1 THEN LMInit(s) ELSE LMStep(t, t.steps[i-1], s)
    [] t.kind = "gn" -> IF i = 1 THEN GNInit(s) ELSE GNStep(t, t.steps[i-1], s)
=============================================================================
