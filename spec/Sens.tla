-------------------------------- MODULE Sens --------------------------------
(***************************************************************************)
(* Sensitivity of the solutions of                                         *)
(*    minimise  x'Qx/2 + k sum x^4/4 + sum a_i x_i^2/2 - s c'x             *)
(*              + sum_i lam_i (|x_i| + gam x_i^2 / 2) + grp |x|_2          *)
(*              + ent sum x_i (log x_i - 1)                                *)
(*    such that lo <= x <= hi,  A x = b,  G x <= h,                        *)
(*              |x|_1 <= l1,  |x|_2 <= rad   (or = rad)                    *)
(* k is 0 or 1, s is 1 or -1; absent bounds are infinite.  At a solution   *)
(* with strict complementarity the active constraints stay active, the     *)
(* optimality system is smooth, and its implicit derivative is the one of  *)
(* the solution map.  With Lagrangian gradient  g(x) + N'nu = 0, N x = d   *)
(*     [ H  N' ] [dx ]   [ -dg - dN' nu ]                                  *)
(*     [ N  0  ] [dnu] = [  dd - dN  x  ]                                  *)
(* so that for a cotangent v, with (w, y) the solution of the same         *)
(* symmetric system for (v, 0),   v'dx = w'(-dg - dN'nu) + y'(dd - dN x).  *)
(* p is a record with all the parameters.                                  *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences, FiniteSets
Near(u, w) == DIsFin(w) /\ DLe(DAbs(DSub(u, w)), "1E-4")
Unit(n, i, s) == [j \in 1..n |-> IF j = i THEN s ELSE "0"]
AtLo(p, x, i) == Near(x[i], p.lo[i])
AtHi(p, x, i) == Near(x[i], p.hi[i]) /\ ~AtLo(p, x, i)
Kinked(p, x) == Near(VSum([i \in 1..Len(x) |-> DAbs(x[i])]), p.l1)
Kink(p, x, i) == ~AtLo(p, x, i) /\ ~AtHi(p, x, i) /\ Near(x[i], "0") /\ (DGt(p.lam[i], "0") \/ Kinked(p, x))
Sg(p, x, i) == IF Kink(p, x, i) THEN "0" ELSE IF AtLo(p, x, i) /\ DEq(p.lo[i], "0") THEN "1" ELSE IF DLt(x[i], "0") THEN "-1" ELSE "1"
\* the penalty on the norm: at zero all coordinates stay there
Grouped(p) == DGt(p.grp, "0")
AtZero(p, x) == Grouped(p) /\ DLe(VNorm(x), "1E-4")
Pulled(p, x, i) == IF ~Grouped(p) \/ AtZero(p, x) THEN "0" ELSE DMul(p.grp, DDiv(x[i], VNorm(x)))
Entropic(p) == DGt(p.ent, "0")
\* gradient and Hessian of the smooth part (and of the penalty on its support)
Slope(p, x) == LET m == MVec(p.Q, x) IN
  [i \in 1..Len(x) |-> DSub(DAdd(DAdd(DAdd(m[i], IF Entropic(p) THEN DMul(p.ent, DLog(x[i])) ELSE "0"), DMul(p.a[i], x[i])),
                                 DAdd(DAdd(Pulled(p, x, i), DMul(p.k, DMul(x[i], DSq(x[i])))), DMul(p.lam[i], DAdd(Sg(p, x, i), DMul(p.gam, x[i]))))),
                            DMul(p.s, p.c[i]))]
Curve(p, x) == [i \in 1..Len(x) |-> [j \in 1..Len(x) |->
  DAdd(p.Q[i][j], IF i # j THEN "0" ELSE DAdd(IF Entropic(p) THEN DDiv(p.ent, x[i]) ELSE "0", DAdd(DAdd(p.a[i], DMul(p.lam[i], p.gam)), DMul(p.k, DMul(3, DSq(x[i]))))))]]
\* active constraints [row, rhs, of, at, c, sort]: parameter `of`, entry `at`, gets c * y
Con(row, rhs, of, at, c, sort) == [row |-> row, rhs |-> rhs, of |-> of, at |-> at, c |-> c, sort |-> sort]
Pick(n, P(_), C(_)) == LET S[i \in 0..n] == IF i = 0 THEN <<>> ELSE S[i-1] \o (IF P(i) THEN <<C(i)>> ELSE <<>>) IN S[n]
Active(p, x) ==
  LET n == Len(x) IN
  Pick(n, LAMBDA i : AtLo(p, x, i), LAMBDA i : Con(Unit(n, i, "-1"), DNeg(p.lo[i]), "lo", i, "-1", "ineq"))
  \o Pick(n, LAMBDA i : AtHi(p, x, i), LAMBDA i : Con(Unit(n, i, "1"), p.hi[i], "hi", i, "1", "ineq"))
  \o Pick(n, LAMBDA i : Kink(p, x, i) \/ AtZero(p, x), LAMBDA i : Con(Unit(n, i, "1"), "0", "kink", i, "0", IF AtZero(p, x) THEN "group" ELSE "kink"))
  \o Pick(Len(p.A), LAMBDA i : TRUE, LAMBDA i : Con(p.A[i], p.b[i], "A", i, "1", "eq"))
  \o Pick(Len(p.G), LAMBDA i : Near(VDot(p.G[i], x), p.h[i]), LAMBDA i : Con(p.G[i], p.h[i], "G", i, "1", "ineq"))
  \o Pick(1, LAMBDA i : Kinked(p, x), LAMBDA i : Con([j \in 1..n |-> Sg(p, x, j)], p.l1, "l1", 1, "1", IF p.sphere THEN "eq" ELSE "ineq"))
  \o Pick(1, LAMBDA i : Near(VNorm(x), p.rad), LAMBDA i : Con(VScale(DDiv("1", VNorm(x)), x), p.rad, "rad", 1, "1", IF p.sphere THEN "eq" ELSE "ineq"))
\* multipliers by least squares:  N N' nu = -N g
Gram(cs) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs) |-> VDot(cs[i].row, cs[j].row)]]
Mult(p, x, cs) == IF Len(cs) = 0 THEN <<>> ELSE MSolve(Gram(cs), [i \in 1..Len(cs) |-> DNeg(VDot(cs[i].row, Slope(p, x)))])
Pull(cs, nu, n) == [j \in 1..n |-> VSum([i \in 1..Len(cs) |-> DMul(nu[i], cs[i].row[j])])]
Stationary(p, x, cs, nu) == VMaxAbs(VAdd(Slope(p, x), Pull(cs, nu, Len(x))))
RadNu(cs, nu) == VSum([i \in 1..Len(cs) |-> IF cs[i].of = "rad" THEN nu[i] ELSE "0"])
L1Nu(cs, nu) == VSum([i \in 1..Len(cs) |-> IF cs[i].of = "l1" THEN nu[i] ELSE "0"])
Hess(p, x, cs, nu) == LET H == Curve(p, x) m == DAdd(RadNu(cs, nu), IF AtZero(p, x) THEN "0" ELSE p.grp) r == VNorm(x) IN
  IF DEq(m, "0") THEN H
  ELSE [i \in 1..Len(x) |-> [j \in 1..Len(x) |-> DAdd(H[i][j], DDiv(DMul(m, DSub(IF i = j THEN "1" ELSE "0", DDiv(DMul(x[i], x[j]), DSq(r)))), r))]]
\* margins: strict complementarity, and no constraint about to become active
Gap == "0.005"
Strict(p, x, cs, nu) ==
  /\ \A i \in 1..Len(cs) : CASE cs[i].sort = "ineq" -> DGe(nu[i], Gap) [] cs[i].sort = "kink" -> DLe(DAbs(nu[i]), DSub(DAdd(p.lam[cs[i].at], L1Nu(cs, nu)), Gap)) [] OTHER -> TRUE
  /\ AtZero(p, x) => DLe(VNorm(nu), DSub(p.grp, Gap))
  /\ Grouped(p) => AtZero(p, x) \/ DGe(VNorm(x), Gap)
  /\ \A i \in 1..Len(x) : (AtLo(p, x, i) \/ DGe(DSub(x[i], p.lo[i]), Gap)) /\ (AtHi(p, x, i) \/ DGe(DSub(p.hi[i], x[i]), Gap))
  /\ \A i \in 1..Len(x) : (DGt(p.lam[i], "0") \/ Kinked(p, x)) => Kink(p, x, i) \/ AtLo(p, x, i) \/ AtHi(p, x, i) \/ DGe(DAbs(x[i]), Gap)
  /\ \A i \in 1..Len(p.G) : Near(VDot(p.G[i], x), p.h[i]) \/ DGe(DSub(p.h[i], VDot(p.G[i], x)), Gap)
  /\ Kinked(p, x) \/ DGe(DSub(p.l1, VSum([i \in 1..Len(x) |-> DAbs(x[i])])), Gap)
  /\ Near(VNorm(x), p.rad) \/ DGe(DSub(p.rad, VNorm(x)), Gap)
KKT(H, cs) == LET n == Len(H) m == Len(cs) IN
  [i \in 1..(n+m) |-> [j \in 1..(n+m) |->
     IF i <= n /\ j <= n THEN H[j][i] ELSE IF i <= n THEN cs[j-n].row[i] ELSE IF j <= n THEN cs[i-n].row[j] ELSE "0"]]
\* (H is transposed: roots of systems that are no gradients are covered too)
Adj(H, cs, v) == MSolve(KKT(H, cs), [i \in 1..(Len(H) + Len(cs)) |-> IF i <= Len(v) THEN v[i] ELSE "0"])
\* cotangents of every parameter
Cot(p, x, cs, nu, z) ==
  LET n == Len(x) m == Len(cs)
      w == SubSeq(z, 1, n)
      y == SubSeq(z, n + 1, n + m)
      Of(nm, i) == VSum([k \in 1..m |-> IF cs[k].of = nm /\ cs[k].at = i THEN DMul(cs[k].c, y[k]) ELSE "0"])
      Row(nm, i) == [j \in 1..n |-> VSum([k \in 1..m |-> IF cs[k].of = nm /\ cs[k].at = i THEN DNeg(DAdd(DMul(nu[k], w[j]), DMul(y[k], x[j]))) ELSE "0"])]
      lam == [i \in 1..n |-> DNeg(DMul(w[i], DAdd(Sg(p, x, i), DMul(p.gam, x[i]))))]
      lo == [i \in 1..n |-> Of("lo", i)]
      hi == [i \in 1..n |-> Of("hi", i)]
  IN [Q |-> [i \in 1..n |-> [j \in 1..n |-> DNeg(DMul(w[i], x[j]))]],
      a |-> [i \in 1..n |-> DNeg(DMul(w[i], x[i]))],
      c |-> VScale(p.s, w),
      lo |-> lo, hi |-> hi, linf |-> <<DSub(VSum(hi), VSum(lo))>>,
      A |-> [i \in 1..Len(p.A) |-> Row("A", i)], b |-> [i \in 1..Len(p.b) |-> Of("A", i)],
      G |-> [i \in 1..Len(p.G) |-> Row("G", i)], h |-> [i \in 1..Len(p.h) |-> Of("G", i)],
      lam |-> lam, lamsum |-> <<VSum(lam)>>,
      gam |-> <<DNeg(VSum([i \in 1..n |-> DMul(DMul(p.lam[i], x[i]), w[i])]))>>,
      grp |-> <<IF AtZero(p, x) \/ ~Grouped(p) THEN "0" ELSE DNeg(DDiv(VDot(x, w), VNorm(x)))>>,
      ent |-> <<IF Entropic(p) THEN DNeg(VSum([i \in 1..n |-> DMul(w[i], DLog(x[i]))])) ELSE "0">>,
      l1 |-> <<Of("l1", 1)>>, rad |-> <<Of("rad", 1)>>]
=============================================================================
