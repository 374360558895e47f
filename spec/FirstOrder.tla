----------------------------- MODULE FirstOrder -----------------------------
(***************************************************************************)
(* First-order methods as state machines.                                   *)
(*   smooth part  f(x) = 1/2 x'Qx - c'x + 1/4 sum q_i x_i^4                 *)
(*   prox kinds of Prox.tla and projection kinds "proj_*" of Proj.tla       *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences
Pr == INSTANCE Prox
Pj == INSTANCE Proj
LCls == INSTANCE Loss

Pow4(v) == DSq(DSq(v))
F(o, x) == DAdd(DSub(DMul("0.5", VDot(x, MVec(o.Q, x))), VDot(o.c, x)),
                DMul("0.25", VSum([i \in 1..Len(x) |-> DMul(o.q[i], Pow4(x[i]))])))
DF(o, x) == VAdd(VSub(MVec(o.Q, x), o.c), [i \in 1..Len(x) |-> DMul(o.q[i], DMul(x[i], DSq(x[i])))])
IsProj(k) == k \in {"box", "simplex", "l2_ball", "non_negative", "l1_ball"}
ProxOf(o, z, s) == IF IsProj(o.prox) THEN Pj!P(o.prox, z, o.p) ELSE Pr!Prox(o.prox, z, o.p \o <<<<s>>>>)
Pen(o, x) == IF IsProj(o.prox) THEN "0" ELSE Pr!Penalty(o.prox, x, o.p)
Total(o, x) == DAdd(F(o, x), Pen(o, x))

(* ------------------------ (proximal) gradient, FISTA -------------------- *)
StepFrom(o, y, s) == ProxOf(o, VAxpy(DNeg(s), DF(o, y), y), s)
\* the quadratic upper bound at step size s:  f(z) <= f(y) + <g, z-y> + |z-y|^2 / 2s
BoundGap(o, y, s) ==
  LET z == StepFrom(o, y, s)  d == VSub(z, y)
  IN DSub(DMul(s, DSub(F(o, z), F(o, y))), DAdd(DMul(s, VDot(d, DF(o, y))), DMul("0.5", VSqNorm(d))))
NextT(t) == DMul("0.5", DAdd(1, DSqrt(DAdd(1, DMul(4, DSq(t))))))
Extrapolate(x, x2, t) == VAxpy(DDiv(DSub(t, 1), NextT(t)), VSub(x2, x), x2)
Reopen(s, factor) == IF DLe(s, "1E-6") THEN "1" ELSE DDiv(s, factor)
DPow(b, k) == LET G[i \in 0..k] == IF i = 0 THEN "1" ELSE DMul(b, G[i-1]) IN G[k]

(* ------------------------------ mirror descent -------------------------- *)
KLStep(x, g, s) ==
  LET z == [i \in 1..Len(x) |-> DSub(DLog(x[i]), DMul(s, g[i]))]
      m == VMaxAbs(z)  e == [i \in 1..Len(x) |-> DExp(DSub(z[i], m))]
  IN VScale(DDiv(1, VSum(e)), e)

(* --------------------------- coordinate descent ------------------------- *)
RECURSIVE Sweep(_, _, _)
\* one epoch of clipped Newton coordinate steps on 1/2 x'Qx + c'x over [l, u]
CDPoint(o, x, i) ==
  LET g == DAdd(VDot(o.Q[i], x), o.c[i])  h == o.Q[i][i]
  IN IF DEq(h, 0) THEN (IF DLt(0, g) THEN o.l[i] ELSE IF DLt(g, 0) THEN o.u[i] ELSE Pj!Clip(x[i], o.l[i], o.u[i]))
     ELSE Pj!Clip(DSub(x[i], DDiv(g, h)), o.l[i], o.u[i])
Sweep(o, x, i) == IF i > Len(x) THEN x ELSE Sweep(o, [x EXCEPT ![i] = CDPoint(o, x, i)], i + 1)
\* the moves made on the way
RECURSIVE SweepError(_, _, _)
SweepError(o, x, i) == IF i > Len(x) THEN "0"
                       ELSE LET z == CDPoint(o, x, i) IN DAdd(DAbs(DSub(z, x[i])), SweepError(o, [x EXCEPT ![i] = z], i + 1))

(* block coordinate descent on subfun(X w) + prox; w: d rows of k columns.   *)
\* gradient of the sub-function with respect to the predictions (n rows of k)
SubGrad(o, P) ==
  LET n == Len(P) IN
  CASE o.kind = "least_squares" -> [i \in 1..n |-> [j \in 1..Len(P[i]) |-> DDiv(DSub(P[i][j], o.y[i][j]), n * Len(P[i]))]]
    [] o.kind = "binary_logreg" -> [i \in 1..n |-> <<DDiv(DSub(DDiv(1, DAdd(1, DExp(DNeg(P[i][1])))), o.y[i][1]), n)>>]
    [] o.kind = "multiclass_logreg" ->
         [i \in 1..n |-> LET m == VMaxAbs(P[i])  e == [j \in 1..Len(P[i]) |-> DExp(DSub(P[i][j], m))]  S == VSum(e)
                         IN [j \in 1..Len(P[i]) |-> DDiv(DSub(DDiv(e[j], S), IF DEq(o.y[i][1], j - 1) THEN 1 ELSE 0), n)]]
    [] o.kind = "svm_dual" -> [i \in 1..n |-> VScale(DDiv(1, o.l2), VSub(P[i], o.y[i]))]
Preds(o, W) == [i \in 1..Len(o.X) |-> [j \in 1..Len(W[1]) |-> VDot(o.X[i], [a \in 1..Len(W) |-> W[a][j]])]]
BGrad(o, W, a) == LET G == SubGrad(o, Preds(o, W)) IN
  [j \in 1..Len(W[1]) |-> DAdd(VDot([i \in 1..Len(o.X) |-> o.X[i][a]], [i \in 1..Len(o.X) |-> G[i][j]]),
                               IF o.b = <<>> THEN 0 ELSE o.b[a][j])]
RECURSIVE BSweep(_, _, _)
BBlock(o, W, a) == LET s == DDiv(1, o.L[a]) IN ProxOf(o, VAxpy(DNeg(s), BGrad(o, W, a), W[a]), s)
BSweep(o, W, a) == IF a > Len(W) THEN W ELSE BSweep(o, [W EXCEPT ![a] = BBlock(o, W, a)], a + 1)

(* -------------------------------- nonlinear CG -------------------------- *)
Floor(v) == IF DGe(v, "1E-6") THEN v ELSE "1E-6"
Beta(method, g, g2, d) ==
  LET y == VSub(g2, g) IN
  Pr!Pos(CASE method = "polak-ribiere" -> DDiv(VDot(y, g2), Floor(VDot(g, g)))
           [] method = "fletcher-reeves" -> DDiv(VDot(g2, g2), Floor(VDot(g, g)))
           [] method = "hestenes-stiefel" -> DDiv(VDot(y, g2), Floor(VDot(y, d))))
CGDir(method, g, g2, d) == VAxpy(Beta(method, g, g2, d), d, VScale("-1", g2))
\* step size a line search starts from
LSInit(strategy, maxs, mins, inc, s) ==
  CASE strategy = "max" -> maxs [] strategy = "current" -> s
    [] strategy = "increase" -> IF DLe(s, mins) THEN maxs ELSE DMul(s, inc)
=============================================================================
