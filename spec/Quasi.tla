-------------------------------- MODULE Quasi --------------------------------
(***************************************************************************)
(* Quasi-Newton methods.  A pair is [s |-> step, y |-> gradient difference]; *)
(* a history is a sequence of pairs, oldest first.                           *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences
Curv(p) == VDot(p.s, p.y)
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Recent(q, m) == IF Len(q) <= m THEN q ELSE SubSeq(q, Len(q) - m + 1, Len(q))
(* ---------------- inverse Hessian (BFGS and L-BFGS) --------------------- *)
\* H_k v = (I - rho s y')H_{k-1}(I - rho y s')v + rho s s'v, a pair of zero
\* curvature leaves H alone
RECURSIVE HVec(_, _, _)
HVec(h, gamma, v) ==
  IF h = <<>> THEN VScale(gamma, v)
  ELSE LET p == Last(h)  sy == Curv(p)
       IN IF DEq(sy, 0) THEN HVec(Front(h), gamma, v)
          ELSE LET a == DDiv(VDot(p.s, v), sy)
                   q == HVec(Front(h), gamma, VAxpy(DNeg(a), p.y, v))
               IN VAxpy(DSub(a, DDiv(VDot(p.y, q), sy)), p.s, q)
\* scaling of the initial matrix (7.20): s'y / y'y of the newest pair
Gamma(h, use) ==
  IF ~use \/ h = <<>> THEN "1"
  ELSE IF DEq(VSqNorm(Last(h).y), 0) THEN "1" ELSE DDiv(Curv(Last(h)), VSqNorm(Last(h).y))
LDirection(h, use, g) == VScale("-1", HVec(h, Gamma(h, use), g))
\* dense recursion
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
MScale(c, A) == [i \in 1..Len(A) |-> VScale(c, A[i])]
MCol(A, j) == [i \in 1..Len(A) |-> A[i][j]]
HUpdate(H, p) ==
  IF DEq(Curv(p), 0) THEN H
  ELSE LET n == Len(H)  r == DDiv(1, Curv(p))
           Hy == MVec(H, p.y)            \* H symmetric
           yHy == VDot(p.y, Hy)
       IN [i \in 1..n |-> [j \in 1..n |->
            DAdd(DSub(DSub(H[i][j], DMul(r, DMul(p.s[i], Hy[j]))), DMul(r, DMul(Hy[i], p.s[j]))),
                 DMul(DMul(p.s[i], p.s[j]), DAdd(r, DMul(DSq(r), yHy))))]]
(* --------------------- Hessian (L-BFGS-B), pairs with y's > 0 ------------- *)
BUpdate(B, p) ==
  LET n == Len(B)  Bs == MVec(B, p.s)  sBs == VDot(p.s, Bs)  ys == Curv(p)
  IN [i \in 1..n |-> [j \in 1..n |-> DAdd(DSub(B[i][j], DDiv(DMul(Bs[i], Bs[j]), sBs)), DDiv(DMul(p.y[i], p.y[j]), ys))]]
RECURSIVE BMat(_, _, _)
BMat(h, theta, n) == IF h = <<>> THEN MScale(theta, Eye(n)) ELSE BUpdate(BMat(Front(h), theta, n), Last(h))
Accepted(q) == SelectSeq(q, LAMBDA p : DLt(0, Curv(p)))
Theta(h, use, th0) == IF h = <<>> \/ ~use THEN th0 ELSE DMul(th0, DDiv(VSqNorm(Last(h).y), Curv(Last(h))))
Eps == "2.220446049250313E-16"
\* distances to the bounds along the steepest descent path
Breaks(x, g, l, u) ==
  [i \in 1..Len(x) |-> IF DLt(DAbs(g[i]), Eps) THEN "inf"
                       ELSE DDiv(DSub(x[i], IF DLt(g[i], 0) THEN u[i] ELSE l[i]), g[i])]
\* the projected path, up to the first local minimiser of the quadratic model:
\* z displacement so far, d current direction, F coordinates still moving
RECURSIVE Path(_, _, _, _, _, _, _)
Path(g, B, t, z, d, F, cur) ==
  LET moving == {i \in F : DIsFin(t[i])}
      fp == VDot(d, VAdd(g, MVec(B, z)))
      fpp == VDot(d, MVec(B, d))
  IN IF DGe(fp, 0) \/ DEq(fpp, 0) THEN [z |-> z, free |-> F, tie |-> FALSE]
     ELSE LET dt == DDiv(DNeg(fp), fpp)
              nxt == IF moving = {} THEN "inf" ELSE LET i == CHOOSE i \in moving : \A j \in moving : DLe(t[i], t[j]) IN t[i]
              room == DSub(nxt, cur)
          IN IF DLt(dt, room) THEN [z |-> VAxpy(dt, d, z), free |-> F, tie |-> DClose(dt, room, "1E-7", 0)]
             ELSE LET hit == {i \in moving : DEq(t[i], nxt)}
                      r == Path(g, B, t, VAxpy(room, d, z), [i \in 1..Len(d) |-> IF i \in hit THEN "0" ELSE d[i]], F \ hit, nxt)
                  IN [r EXCEPT !.tie = @ \/ DClose(dt, room, "1E-7", 0)]
Cauchy(x, g, l, u, B) ==
  LET t == Breaks(x, g, l, u)
      d == [i \in 1..Len(x) |-> IF DLt(t[i], Eps) THEN "0" ELSE DNeg(g[i])]
  IN Path(g, B, t, VZero(Len(x)), d, {i \in 1..Len(x) : DGt(t[i], Eps)}, "0")
\* Newton step of the model on the free coordinates, cut at the box
RECURSIVE SetSeq(_, _, _)
SetSeq(F, i, n) == IF i > n THEN <<>> ELSE (IF i \in F THEN <<i>> ELSE <<>>) \o SetSeq(F, i + 1, n)
Subspace(x, g, l, u, B, c) ==
  LET n == Len(x)  f == SetSeq(c.free, 1, n)
      r == VAdd(g, MVec(B, c.z))
      du == MSolve([a \in 1..Len(f) |-> [b \in 1..Len(f) |-> B[f[a]][f[b]]]], [a \in 1..Len(f) |-> DNeg(r[f[a]])])
      lim(a) == IF DEq(du[a], 0) THEN "1"
                ELSE LET xc == DAdd(x[f[a]], c.z[f[a]]) IN DMax(DDiv(DSub(u[f[a]], xc), du[a]), DDiv(DSub(l[f[a]], xc), du[a]))
      A[k \in 0..Len(f)] == IF k = 0 THEN "1" ELSE DMin(A[k-1], lim(k))
      alpha == A[Len(f)]
      pos(i) == CHOOSE a \in 1..Len(f) : f[a] = i
  IN IF f = <<>> \/ du = <<>> THEN c.z
     ELSE [i \in 1..n |-> IF i \in c.free THEN DAdd(c.z[i], DMul(alpha, du[pos(i)])) ELSE c.z[i]]
\* the search direction, from the accepted pairs h (at most m)
BDirection(x, g, l, u, B) == Subspace(x, g, l, u, B, Cauchy(x, g, l, u, B))
Model(g, B, z) == DAdd(VDot(g, z), DMul("0.5", VDot(z, MVec(B, z))))
ProjGrad(x, g, l, u) == [i \in 1..Len(x) |-> DSub(DMax(l[i], DMin(u[i], DSub(x[i], g[i]))), x[i])]
(* ------------------------------- Broyden --------------------------------- *)
\* terms: sequence of [c, d], oldest first; B = gamma I + sum c d'
RECURSIVE CD(_, _)
CD(ts, v) == IF ts = <<>> THEN VZero(Len(v)) ELSE VAxpy(VDot(Last(ts).d, v), Last(ts).c, CD(Front(ts), v))
RECURSIVE DC(_, _)
DC(ts, v) == IF ts = <<>> THEN VZero(Len(v)) ELSE VAxpy(VDot(Last(ts).c, v), Last(ts).d, DC(Front(ts), v))
JVec(ts, gamma, v) == VAxpy(gamma, v, CD(ts, v))
JTVec(ts, gamma, v) == VAxpy(gamma, v, DC(ts, v))
BroydenDenom(ts, gamma, dx, dg) == VDot(JTVec(ts, gamma, dx), dg)
BroydenTerm(ts, gamma, dx, dg) ==
  LET v == JTVec(ts, gamma, dx)
  IN [d |-> VScale(DDiv(1, VDot(v, dg)), v), c |-> VSub(dx, JVec(ts, gamma, dg))]
=============================================================================
