------------------------------- MODULE MCFirst ------------------------------
(* Proximal gradient on a grid of two-dimensional composite problems, plain   *)
(* and accelerated, with the step size chosen by backtracking or fixed at     *)
(* 1/L.  Checked: line-search iterations never increase the objective, the    *)
(* accelerated iterates obey the FISTA rate, t_k >= (k+2)/2, step sizes stay  *)
(* above factor/L, fixed points are stationary; coordinate sweeps descend and *)
(* stay in the box.                                                           *)
EXTENDS FirstOrder, TLC
CONSTANTS K, Bug
VARIABLES o, mode, x, y, t, s, used, k, x0, best
vars == <<o, mode, x, y, t, s, used, k, x0, best>>
Qs == {<<<<"2", "0">>, <<"0", "0.5">>>>, <<<<"2", "1">>, <<"1", "2">>>>, <<<<"1", "-1">>, <<"-1", "1">>>>}
\* largest eigenvalues bounded by the trace
Lip(Q) == DAdd(Q[1][1], Q[2][2])
Pxs == {<<"none", <<>>>>, <<"lasso", <<<<"0.3", "0.3">>>>>>, <<"box", <<<<"-0.5", "-0.5">>, <<"0.25", "1">>>>>>, <<"simplex", <<<<"1">>>>>>}
Init ==
  /\ \E Q \in Qs, c \in {<<"1", "-1">>, <<"0.5", "0.5">>}, px \in Pxs :
       o = [Q |-> Q, c |-> c, q |-> <<"0", "0">>, prox |-> px[1], p |-> px[2], l |-> <<"-0.5", "-0.5">>, u |-> <<"0.25", "1">>]
  /\ mode \in {"ls", "acc", "accls", "cd"}
  /\ x \in (IF mode = "cd" THEN {<<"0", "0.5">>, <<"-0.5", "1">>} ELSE {<<"3", "-2">>, <<"0", "0">>})
  /\ x0 = x /\ y = x /\ t = "1" /\ s = "1" /\ used = "1" /\ k = 0 /\ best = Total(o, x)
Acc == mode \in {"acc", "accls"}
Point == IF Acc THEN y ELSE x
Ks(st) == {j \in 0..6 : DLe(BoundGap(o, Point, DMul(st, DPow("0.5", j))), "1E-30")}
MinK(S) == CHOOSE j \in S : \A i \in S : j <= i
Next ==
  /\ k < K /\ k' = k + 1
  /\ IF mode = "cd" THEN x' = Sweep(o, x, 1) /\ UNCHANGED <<y, t, s, used>>
     ELSE LET u == IF mode = "acc" THEN DDiv(1, Lip(o.Q)) ELSE DMul(s, DPow("0.5", MinK(Ks(s))))
              z == StepFrom(o, Point, u)
          IN /\ used' = u /\ x' = z
             /\ s' = (IF mode = "acc" THEN s ELSE Reopen(u, "0.5"))
             /\ t' = (IF Acc THEN NextT(t) ELSE t)
             /\ y' = (IF Acc THEN (IF Bug THEN VAxpy(DDiv(t, NextT(t)), VSub(z, x), z) ELSE Extrapolate(x, z, t)) ELSE y)
  /\ best' = (IF DLt(Total(o, x'), best) THEN Total(o, x') ELSE best)
  /\ UNCHANGED <<o, mode, x0>>
Descends == [][(mode = "ls" /\ (k > 0 \/ ~IsProj(o.prox))) => DLe(Total(o, x'), DAdd(Total(o, x), "1E-25"))]_vars
CDF(z) == DAdd(DMul("0.5", VDot(z, MVec(o.Q, z))), VDot(o.c, z))
CDDescends == [][(mode = "cd") => DLe(CDF(x'), DAdd(CDF(x), "1E-25"))]_vars
InBox == mode = "cd" => \A i \in 1..2 : DLe(o.l[i], x[i]) /\ DLe(x[i], o.u[i])
TGrows == Acc => DGe(DMul(2, t), k + 2)
StepsFloor == (mode \in {"ls", "accls"} /\ k > 0) => DGe(used, DDiv("0.49", Lip(o.Q)))
\* FISTA: F(x_k) - F(z) <= 2 L |x0 - z|^2 / (k+1)^2  for every z (here the grid)
Zs == {<<a, b>> : a \in {"-0.5", "0", "0.25", "0.5", "1"}, b \in {"-0.5", "0", "0.5", "0.75", "1"}}
Rate == (mode = "acc" /\ k >= 1) =>
  \A z \in Zs : (\/ o.prox \in {"none", "lasso"}
                 \/ o.prox = "box" /\ \A i \in 1..2 : DLe(o.p[1][i], z[i]) /\ DLe(z[i], o.p[2][i])
                 \/ o.prox = "simplex" /\ DEq(DAdd(z[1], z[2]), 1) /\ DGe(z[1], 0) /\ DGe(z[2], 0))
     => DLe(DSub(Total(o, x), Total(o, z)), DAdd("1E-25", DDiv(DMul(DMul(2, Lip(o.Q)), VSqNorm(VSub(x0, z))), DSq(k + 1))))
=============================================================================
