-------------------------------- MODULE MCQP --------------------------------
(* Small problems, classified exhaustively over a grid of points, multipliers, *)
(* combinations and rays.  The certificates are sound, the optimality           *)
(* conditions imply minimality, and the three verdicts exclude one another.     *)
(* Also the source of the problems given to the solvers, with the verdict.      *)
EXTENDS QP, TLC, Json, Sequences
CONSTANT Emit
VARIABLES prob, v
I2 == <<<<"1", "0">>, <<"0", "1">>>>
Qs == {I2, <<<<"2", "1">>, <<"1", "2">>>>, <<<<"1", "0">>, <<"0", "0">>>>, <<<<"1", "1">>, <<"1", "1">>>>, <<<<"0", "0">>, <<"0", "0">>>>}
Cs == {<<a, b>> : a \in {"-1", "0", "2"}, b \in {"-2", "0", "1"}}
As == {I2, <<<<"1", "1">>, <<"1", "-1">>>>, <<<<"1", "1">>, <<"2", "2">>>>, <<<<"0", "0">>, <<"0", "1">>>>, <<<<"1", "0">>, <<"1", "0">>>>}
Bs == {<<"-inf", "1">>, <<"0", "0">>, <<"1", "1">>, <<"-1", "1">>, <<"1", "inf">>, <<"-inf", "-1">>}
Problems == [Q : Qs, c : Cs, A : As, l : {<<"0">>}, u : {<<"0">>}]
X == {<<a, b>> : a \in -2..2, b \in -2..2}
Y == {<<a, b>> : a \in -3..3, b \in -3..3}
D == {<<a, b>> : a \in -2..2, b \in -2..2} \ {<<0, 0>>}
Feasible(p) == {x \in X : DLe(Violation(p, MVec(p.A, x)), 0)}
Solutions(p, F) == {w \in F \X Y : Optimal(p, w[1], w[2], 0)}
Verdict(p) ==
  LET F == Feasible(p)
      S == Solutions(p, F)
      N == {d \in D : NoPoint(p, d, 0)}
      R == {d \in D : NoMinimum(p, d, 0)}
      kind == IF S # {} THEN "solved" ELSE IF N # {} /\ R # {} THEN "neither" ELSE IF N # {} THEN "infeasible" ELSE IF R # {} /\ F # {} THEN "unbounded" ELSE "unknown"
      w == IF S # {} THEN CHOOSE w \in S : TRUE ELSE <<<<0, 0>>, <<0, 0>>>>
  IN [kind |-> kind, x |-> w[1], y |-> w[2], feas |-> F, sols |-> S, no |-> N, rays |-> R]
Init ==
  /\ \E q \in Problems, b1 \in Bs, b2 \in Bs : prob = [q EXCEPT !.l = <<b1[1], b2[1]>>, !.u = <<b1[2], b2[2]>>]
  /\ v = Verdict(prob)
  /\ (Emit /\ v.kind # "unknown") => PrintT("GEN|" \o ToJson([Q |-> prob.Q, c |-> prob.c, A |-> prob.A, l |-> prob.l, u |-> prob.u, kind |-> v.kind, x |-> v.x, y |-> v.y]))
Next == UNCHANGED <<prob, v>>
Exclusive == v.sols # {} => v.no = {} /\ v.rays = {}
Farkas == v.no # {} => v.feas = {}
Unbounded == (v.rays # {}) => \A d \in v.rays, x \in v.feas : \A t \in 1..3 :
   LET w == VAxpy(t, d, x) IN DLe(Violation(prob, MVec(prob.A, w)), 0) /\ DLt(Objective(prob, w), Objective(prob, VAxpy(t - 1, d, x)))
Minimal == \A w \in v.sols, x \in v.feas : DLe(Objective(prob, w[1]), Objective(prob, x))
Fixpoint == \* solutions are the rest points of the splitting iteration
  \A w \in v.sols : LET s == Split(prob, w[1], MVec(prob.A, w[1]), w[2], "0.5", "0.125", "1.5") IN
    VClose(s.x, w[1], 0, "1E-25") /\ VClose(s.z, MVec(prob.A, w[1]), 0, "1E-25") /\ VClose(s.y, w[2], 0, "1E-25")
CoordinateRest == \* and of coordinate descent, when the constraints are bounds
  (prob.A = I2 /\ VFin(prob.l) /\ VFin(prob.u)) => \A x \in v.feas :
     VClose(Sweep(prob, x), x, 0, "1E-25") <=> Optimal(prob, x, VScale(-1, VAdd(MVec(prob.Q, x), prob.c)), 0)
Measure == \A w \in v.sols : LET y == w[2] IN
   DEq(VMaxAbs(BoxResiduals(prob, w[1], MVec(prob.A, w[1]), y, [i \in 1..2 |-> Pos(y[i])], [i \in 1..2 |-> DNeg(Neg(y[i]))])), 0)
=============================================================================
