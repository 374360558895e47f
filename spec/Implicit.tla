------------------------------ MODULE Implicit ------------------------------
(***************************************************************************)
(* Differentiating a root x(theta) of F(x, theta) = 0 (or a fixed point of   *)
(* T, with F = T - x) by the implicit function theorem:                      *)
(*     reverse:  J' u = -v        gradient of theta_j:  (dF/dtheta_j)' u     *)
(*     forward:  J dx = -(dF/dtheta) dtheta                                  *)
(* with J = dF/dx at the root; the initial guess gets a zero derivative.     *)
(* The family used:  F(x, a, b, c) = Q x + x^3 + a x + b x^2 - c             *)
(* (products elementwise, b a scalar; Q is an argument too).                 *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences
Ix(x) == 1..Len(x)
\* everything named: r == [Q, a, b, c, x]
Fx(r) == [i \in Ix(r.x) |-> DSub(DAdd(DAdd(MVec(r.Q, r.x)[i], DMul(r.x[i], DSq(r.x[i]))),
                                        DAdd(DMul(r.a[i], r.x[i]), DMul(r.b, DSq(r.x[i])))), r.c[i])]
Jac(r) == [i \in Ix(r.x) |-> [j \in Ix(r.x) |->
             DAdd(r.Q[i][j], IF i # j THEN "0"
                             ELSE DAdd(DMul(3, DSq(r.x[i])), DAdd(r.a[i], DMul(2, DMul(r.b, r.x[i])))))]]
Transpose(M) == [i \in Ix(M) |-> [j \in Ix(M) |-> M[j][i]]]
Adjoint(r, v) == MSolve(Transpose(Jac(r)), VScale("-1", v))
\* cotangents of the arguments
Cot(r, u) == [a |-> [i \in Ix(u) |-> DMul(u[i], r.x[i])],
              b |-> VSum([i \in Ix(u) |-> DMul(u[i], DSq(r.x[i]))]),
              c |-> VScale("-1", u),
              Q |-> [i \in Ix(u) |-> [j \in Ix(u) |-> DMul(u[i], r.x[j])]]]
\* tangent of F in the arguments; d == [Q, a, b, c]
TanArgs(r, d) == [i \in Ix(r.x) |-> DSub(DAdd(MVec(d.Q, r.x)[i], DAdd(DMul(d.a[i], r.x[i]), DMul(d.b, DSq(r.x[i])))), d.c[i])]
Tangent(r, d) == MSolve(Jac(r), VScale("-1", TanArgs(r, d)))
Dot2(A, B) == LET S[i \in 0..Len(A)] == IF i = 0 THEN "0" ELSE DAdd(S[i-1], VDot(A[i], B[i])) IN S[Len(A)]
Pair(g, d) == DAdd(DAdd(VDot(g.a, d.a), DMul(g.b, d.b)), DAdd(VDot(g.c, d.c), Dot2(g.Q, d.Q)))
=============================================================================
