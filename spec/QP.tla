--------------------------------- MODULE QP ---------------------------------
(***************************************************************************)
(* Convex quadratic programmes                                             *)
(*    minimise 1/2 x'Qx + c'x   subject to   l <= A x <= u                 *)
(* (equalities have l = u, absent bounds are infinite), their optimality   *)
(* conditions, and the two kinds of certificate that no solution exists.   *)
(* A problem is a record [Q, c, A, l, u].                                  *)
(***************************************************************************)
EXTENDS Dec

Objective(p, x) == DAdd(DMul("0.5", VDot(x, MVec(p.Q, x))), VDot(p.c, x))
Rows(p) == 1..Len(p.A)
Pos(v) == DMax(v, 0)
Neg(v) == DMin(v, 0)
Top(S) == LET F[T \in SUBSET S] == IF T = {} THEN "0" ELSE LET v == CHOOSE v \in T : TRUE IN DMax(v, F[T \ {v}]) IN F[S]

(* ------------------------------ optimality ------------------------------ *)
\* z are the values of the constrained rows, y the multipliers of A x = z
Stationarity(p, x, y) == VAdd(VAdd(MVec(p.Q, x), p.c), MTVec(p.A, y))
Violation(p, z) == VMaxAbs([i \in Rows(p) |-> DMax(Pos(DSub(z[i], p.u[i])), Pos(DSub(p.l[i], z[i])))])
\* a multiplier may be positive only at the upper bound, negative only at the lower
SlackAt(p, z, y, i) ==
  IF DLt(0, y[i]) THEN (IF DIsFin(p.u[i]) THEN DMin(y[i], DAbs(DSub(p.u[i], z[i]))) ELSE y[i])
  ELSE IF DLt(y[i], 0) THEN (IF DIsFin(p.l[i]) THEN DMin(DNeg(y[i]), DAbs(DSub(z[i], p.l[i]))) ELSE DNeg(y[i]))
  ELSE "0"
Slack(p, z, y) == VMaxAbs([i \in Rows(p) |-> SlackAt(p, z, y, i)])
Optimal(p, x, y, eps) ==
  LET z == MVec(p.A, x) IN
  /\ DLe(VMaxAbs(Stationarity(p, x, y)), eps)
  /\ DLe(Violation(p, z), eps)
  /\ DLe(Slack(p, z, y), eps)

(* ----------------------------- certificates ----------------------------- *)
\* a combination of the rows that vanishes and whose bound is negative
Support(p, d) == VSum([i \in Rows(p) |-> DAdd(IF DLt(0, d[i]) THEN DMul(p.u[i], d[i]) ELSE "0",
                                               IF DLt(d[i], 0) THEN DMul(p.l[i], d[i]) ELSE "0")])
NoPoint(p, d, eps) == DLe(VMaxAbs(MTVec(p.A, d)), eps) /\ DLt(Support(p, d), DNeg(eps))
\* a direction of descent along which the constraints can be followed for ever
Recedes(p, d, eps) == LET w == MVec(p.A, d) IN \A i \in Rows(p) :
   (DIsFin(p.u[i]) => DLe(w[i], eps)) /\ (DIsFin(p.l[i]) => DLe(DNeg(eps), w[i]))
NoMinimum(p, d, eps) == DLe(VMaxAbs(MVec(p.Q, d)), eps) /\ DLt(VDot(p.c, d), DNeg(eps)) /\ Recedes(p, d, eps)

(* --------------------------- equivalent forms --------------------------- *)
\* the same problem with separate equalities (E x = b) and inequalities (G x <= h)
Stack(q) == [Q |-> q.Q, c |-> q.c, A |-> q.E \o q.G, l |-> q.b \o [i \in 1..Len(q.h) |-> "-inf"], u |-> q.b \o q.h]

(* -------------------- measures of optimality reported -------------------- *)
Times(m, r) == IF DIsFin(r) THEN DMul(m, r) ELSE "0"
Held(m, b) == IF DIsFin(b) THEN m ELSE "0"      \* absent bounds have no multiplier
BoxResiduals(p, x, z, y, mu, phi) ==
  Stationarity(p, x, y) \o [i \in Rows(p) |-> DSub(DAdd(DNeg(y[i]), Held(mu[i], p.u[i])), Held(phi[i], p.l[i]))] \o VSub(MVec(p.A, x), z)
  \o [i \in Rows(p) |-> Times(mu[i], DSub(z[i], p.u[i]))] \o [i \in Rows(p) |-> Times(phi[i], DSub(p.l[i], z[i]))]
Residuals(q, x, y, mu) ==
  LET g1 == IF Len(q.E) = 0 THEN <<>> ELSE VSub(MVec(q.E, x), q.b)
      g2 == IF Len(q.G) = 0 THEN <<>> ELSE VSub(MVec(q.G, x), q.h)
  IN Stationarity(Stack(q), x, y \o mu) \o g1 \o [i \in 1..Len(q.G) |-> DMul(mu[i], g2[i])]

(* ------------------- operator splitting, one iteration ------------------- *)
Clip(v, a, b) == DMin(DMax(v, a), b)
Eye(n, s) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN s ELSE "0"]]
Gram(A) == [i \in 1..Len(A[1]) |-> [j \in 1..Len(A[1]) |-> VSum([k \in 1..Len(A) |-> DMul(A[k][i], A[k][j])])]]
MAdd(M, N) == [i \in 1..Len(M) |-> VAdd(M[i], N[i])]
MScale(s, M) == [i \in 1..Len(M) |-> VScale(s, M[i])]
Split(p, x, z, y, rho, sigma, relax) ==
  LET n == Len(p.c)
      K == MAdd(MAdd(p.Q, Eye(n, sigma)), MScale(rho, Gram(p.A)))
      rhs == VSub(VSub(VScale(sigma, x), p.c), MTVec(p.A, VSub(y, VScale(rho, z))))
      xb == MSolve(K, rhs)
      zb == MVec(p.A, xb)
      x1 == VAxpy(relax, VSub(xb, x), x)
      zr == VAxpy(relax, VSub(zb, z), z)
      z1 == [i \in Rows(p) |-> Clip(DAdd(zr[i], DDiv(y[i], rho)), p.l[i], p.u[i])]
      y1 == VAdd(y, VScale(rho, VSub(zr, z1)))
  IN [x |-> x1, z |-> z1, y |-> y1]

(* --------------- coordinate descent over a box, one sweep --------------- *)
Coordinate(p, x, i) ==
  LET g == DAdd(VDot(p.Q[i], x), p.c[i])
      h == p.Q[i][i]
  IN [x EXCEPT ![i] = IF DEq(h, 0) THEN (IF DEq(g, 0) THEN Clip(x[i], p.l[i], p.u[i]) ELSE IF DLt(0, g) THEN p.l[i] ELSE p.u[i])
                      ELSE Clip(DSub(x[i], DDiv(g, h)), p.l[i], p.u[i])]
Sweep(p, x) == LET S[i \in 0..Len(x)] == IF i = 0 THEN x ELSE Coordinate(p, S[i-1], i) IN S[Len(x)]
=============================================================================
