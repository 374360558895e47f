----------------------------- MODULE TraceFirst -----------------------------
EXTENDS TraceLib, FirstOrder
Sz(v) == DAdd(1, VMaxAbs(v))
VNear(a, b) == VClose(a, b, "1E-8", DMul("1E-9", DAdd(Sz(a), IF VFin(b) THEN VMaxAbs(b) ELSE 0)))
Near(a, b, sc) == DClose(a, b, "1E-7", DMul("1E-9", sc))
(* proximal gradient: u, the step size used, is s.factor^k for some k, the     *)
(* first one for which the upper bound holds (or maxls reductions were made). *)
PGInit(t, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [stepsize |-> DEq(s.s, 1), error |-> s.error = "inf", iter_num |-> s.iter_num = 0,
        velocity |-> t.acc => s.y = s.x /\ DEq(s.t, 1), aux |-> VNear(s.aux, s.auxx)]
PGStep(t, a, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE
  LET o == t.o
      pt == IF t.acc THEN a.y ELSE a.x
      cand == IF t.ls THEN [k \in 1..(t.maxls + 1) |-> DMul(a.s, DPow(t.factor, k - 1))] ELSE <<s.fixed>>
      gap(k) == BoundGap(o, pt, cand[k])
      slack == DMul("1E-11", DAdd(1, DAdd(DAbs(F(o, pt)), VSqNorm(pt))))
      \* indices that floating point could have settled on
      fits(k) == \/ ~t.ls
                 \/ /\ k = t.maxls + 1 \/ DLe(gap(k), slack)
                    /\ k = 1 \/ DGe(gap(k - 1), DNeg(slack))
      good == {k \in 1..Len(cand) : fits(k) /\ VNear(s.x, StepFrom(o, pt, cand[k]))}
      k0 == IF good = {} THEN 1 ELSE CHOOSE k \in good : \A j \in good : k <= j
      u == cand[k0]
      from == IF t.acc THEN a.x ELSE pt
      dx == VNorm(VSub(s.x, from))
  IN [gradient_step |-> good # {},
      next_stepsize |-> good # {} => \E k \in good : DClose(s.s, IF t.ls THEN Reopen(cand[k], t.factor) ELSE cand[k], "1E-10", 0),
      error |-> good # {} => \E k \in good : Near(s.error, DDiv(dx, cand[k]), DDiv(Sz(s.x), cand[k])),
      momentum |-> t.acc => DClose(s.t, NextT(a.t), "1E-10", 0) /\ VNear(s.y, Extrapolate(a.x, s.x, a.t)),
      descends |-> (t.ls /\ ~t.acc /\ good # {} /\ k0 <= t.maxls /\ (a.iter_num > 0 \/ ~IsProj(o.prox)))
                      => DLe(Total(o, s.x), DAdd(Total(o, a.x), DMul(slack, DAdd(10, DDiv(1, u))))),
      aux |-> VNear(s.aux, IF t.acc THEN a.auxy ELSE a.auxx),
      iter_num |-> s.iter_num = a.iter_num + 1]
MDStep(t, a, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET g == DF(t.o, a.x)
           z == IF t.map = "kl" THEN KLStep(a.x, g, s.fixed) ELSE StepFrom(t.o, a.x, s.fixed)
       IN [mirror_step |-> VNear(s.x, z), error |-> Near(s.error, DDiv(VNorm(VSub(s.x, a.x)), s.fixed), DDiv(1, s.fixed)),
           aux |-> VNear(s.aux, a.auxx), iter_num |-> s.iter_num = a.iter_num + 1]
CDStep(t, a, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [sweep |-> VNear(s.x, Sweep(t.o, a.x, 1)), error |-> Near(s.error, SweepError(t.o, a.x, 1), Sz(a.x)),
        iter_num |-> s.iter_num = a.iter_num + 1]
Mat(W, k) == [i \in 1..(Len(W) \div k) |-> SubSeq(W, (i-1)*k + 1, i*k)]
FlatM(P) == LET G[i \in 0..Len(P)] == IF i = 0 THEN <<>> ELSE G[i-1] \o P[i] IN G[Len(P)]
BCDStep(t, a, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET W == Mat(a.x, t.k)  W2 == Mat(s.x, t.k)  Z == BSweep(t.o, W, 1)
       IN [sweep |-> VNear(s.x, FlatM(Z)),
           predictions |-> VNear(s.pred, FlatM(Preds(t.o, W2))),
           subgradient |-> VNear(s.sub, FlatM(SubGrad(t.o, Preds(t.o, W2)))),
           error |-> Near(s.error, VNorm(VSub(s.x, a.x)), Sz(a.x)),
           descends |-> DLe(s.total, DAdd(a.total, DMul("1E-10", DAdd(1, DAbs(a.total))))) \/ (s.i = 2 /\ IsProj(t.o.prox)),
           iter_num |-> s.iter_num = a.iter_num + 1]
BCDInit(t, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [predictions |-> VNear(s.pred, FlatM(Preds(t.o, Mat(s.x, t.k)))),
        subgradient |-> VNear(s.sub, FlatM(SubGrad(t.o, Preds(t.o, Mat(s.x, t.k))))), error |-> s.error = "inf", iter_num |-> s.iter_num = 0]
CGInit(t, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [direction |-> VNear(s.d, VScale("-1", DF(t.o, s.x))), stepsize |-> DEq(s.s, t.maxs), value |-> Near(s.value, F(t.o, s.x), DAbs(F(t.o, s.x)))]
CGStep(t, a, s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET g == DF(t.o, a.x)  g2 == DF(t.o, s.x)
           s0 == DMin(t.maxs, LSInit(t.strategy, t.maxs, t.mins, t.inc, a.s))
           dir == IF t.linesearch = "backtracking" THEN VScale("-1", g) ELSE a.d
           first == VAxpy(s0, dir, a.x)
       IN [moves_along_direction |-> VClose(s.x, VAxpy(s.s, dir, a.x), "1E-9", DMul("1E-9", DAdd(Sz(a.x), DMul(s.s, VMaxAbs(dir))))),
           first_trial |-> s.first # <<>> => VClose(s.first, first, "1E-9", DMul("1E-9", Sz(a.x))),
           \* too close to the floor 1E-6 of a denominator: not judged
           direction |-> VClose(s.d, CGDir(t.method, g, g2, a.d), "1E-6", DMul("1E-7", DAdd(VMaxAbs(a.d), VMaxAbs(g2)))),
           gradient |-> VNear(s.grad, g2),
           value |-> Near(s.value, F(t.o, s.x), DAdd(DAbs(F(t.o, s.x)), VSqNorm(s.x))),
           error |-> Near(s.error, VNorm(g2), Sz(g2)),
           descends |-> s.failed \/ DLe(F(t.o, s.x), DAdd(F(t.o, a.x), DMul("1E-9", DAdd(1, DAbs(F(t.o, a.x)))))),
           iter_num |-> s.iter_num = a.iter_num + 1]
FirstClauses(t, i) ==
  LET s == t.steps[i] IN
  CASE t.kind = "pg" -> IF i = 1 THEN PGInit(t, s) ELSE PGStep(t, t.steps[i-1], s)
    [] t.kind = "md" -> IF i = 1 THEN [no_exception |-> s.exc = ""] ELSE MDStep(t, t.steps[i-1], s)
    [] t.kind = "cd" -> IF i = 1 THEN [no_exception |-> s.exc = ""] ELSE CDStep(t, t.steps[i-1], s)
    [] t.kind = "bcd" -> IF i = 1 THEN BCDInit(t, s) ELSE BCDStep(t, t.steps[i-1], s)
    [] t.kind = "cg" -> IF i = 1 THEN CGInit(t, s) ELSE CGStep(t, t.steps[i-1], s)
=============================================================================
