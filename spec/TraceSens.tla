------------------------------ MODULE TraceSens ------------------------------
(* Recorded derivatives of solvers, projections and proximal operators against   *)
(* Sens.tla.  A step holds the parameters p, the point x that was returned, the   *)
(* cotangent v (and vn for the multipliers of A x = b), and the cotangents g that *)
(* came back, by parameter.                                                       *)
EXTENDS TraceLib
Se == INSTANCE Sens
FlatM(M) == LET F[i \in 0..Len(M)] == IF i = 0 THEN <<>> ELSE F[i-1] \o M[i] IN F[Len(M)]
Sym(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> DMul("0.5", DAdd(M[i][j], M[j][i]))]]
Unflat(m, n) == [i \in 1..(Len(m) \div n) |-> [j \in 1..n |-> m[(i-1)*n + j]]]
Neg(x) == VScale("-1", x)
Front(x, n) == SubSeq(x, 1, n)
Back(x, n) == SubSeq(x, n + 1, Len(x))
\* parameters that enter p through a formula
More(p, s, C, x, w) ==
  LET n == Len(x) m == Len(s.y)
      res == [i \in 1..m |-> DSub(VDot(s.X[i], x), s.y[i])]
      q == Len(p.h) \div 2
  IN [asum |-> <<VSum(C.a)>>, hisum |-> <<VSum(C.hi)>>, a |-> C.a, Q |-> FlatM(C.Q), A |-> FlatM(C.A), G |-> FlatM(C.G),
      \* proximal scaling: Q = I/t, c = y/t, so that y gets cot(c)/t
      point |-> IF s.t = "0" THEN <<>> ELSE VScale(DDiv("1", s.t), C.c),
      scaling |-> IF s.t = "0" THEN <<>> ELSE <<DDiv(VDot(w, VSub(x, VScale(s.t, p.c))), DSq(s.t))>>,
      \* least squares  |Xx - y|^2 / (2 s.m):  Q = X'X/m, c = X'y/m
      y |-> IF m = 0 THEN <<>> ELSE [i \in 1..m |-> DDiv(VDot(s.X[i], w), s.m)],
      X |-> IF m = 0 THEN <<>> ELSE FlatM([i \in 1..m |-> [j \in 1..n |-> DNeg(DDiv(DAdd(DMul(res[i], w[j]), DMul(VDot(s.X[i], w), x[j])), s.m))]]),
      \* l <= B x <= u as G = [B; -B], h = [u; -l]
      B |-> IF q = 0 \/ 2 * q # Len(p.h) THEN <<>> ELSE VSub(Front(FlatM(C.G), q * n), Back(FlatM(C.G), q * n)),
      u |-> IF q = 0 \/ 2 * q # Len(p.h) THEN <<>> ELSE Front(C.h, q),
      l |-> IF q = 0 \/ 2 * q # Len(p.h) THEN <<>> ELSE Neg(Back(C.h, q)),
      init |-> [i \in 1..n |-> "0"]]
Closeby(obs, want, rtol) == Len(obs) = Len(want) /\ VClose(obs, want, "0", DMul(rtol, DAdd(1, VMaxAbs(want))))
SensClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE
  LET p == s.p
      x == s.x
      n == Len(x)
      cs == Se!Active(p, x)
      nu == Se!Mult(p, x, cs)
      regular == Len(cs) = 0 \/ Len(nu) > 0
      judged == regular /\ Se!Strict(p, x, cs, nu)
      z == Se!Adj(Se!Hess(p, x, cs, nu), cs, s.v \o s.vn)
      C == Se!Cot(p, x, cs, nu, z)
      M == More(p, s, C, x, SubSeq(z, 1, n))
      Want(nm) == IF nm \in DOMAIN M THEN M[nm] ELSE C[nm]
  IN IF ~regular THEN [structure |-> s.structure]
     ELSE [solution |-> ~VFin(x) \/ ~judged \/ DLe(Se!Stationary(p, x, cs, nu), s.stol),
           finite |-> VFin(x) /\ \A nm \in DOMAIN s.g : VFin(s.g[nm]),
           structure |-> s.structure,
           derivative |-> judged /\ Len(z) > 0 =>
              \A nm \in DOMAIN s.g :
                IF nm = "Q" /\ ~s.full THEN Closeby(FlatM(Sym(Unflat(s.g.Q, n))), FlatM(Sym(C.Q)), s.rtol)
                ELSE Closeby(s.g[nm], Want(nm), s.rtol)]
=============================================================================
