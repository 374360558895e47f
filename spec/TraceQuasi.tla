------------------------------ MODULE TraceQuasi -----------------------------
(* The pairs are rebuilt from the recorded iterates and the specification's   *)
(* own gradients; the next iterate must be x + stepsize * direction.  A trace  *)
(* step whose history holds a pair of relative curvature below 1E-5 (but not  *)
(* a null pair), or a denominator close to cancellation, is not judged.       *)
EXTENDS TraceLib, FirstOrder
Q == INSTANCE Quasi
Sz(v) == DAdd(1, VMaxAbs(v))
VNear(a, b) == VClose(a, b, "1E-8", DMul("1E-9", DAdd(Sz(a), IF VFin(b) THEN VMaxAbs(b) ELSE 0)))
Pair(t, k) == [s |-> VSub(t.steps[k+1].x, t.steps[k].x), y |-> VSub(DF(t.o, t.steps[k+1].x), DF(t.o, t.steps[k].x))]
Pairs(t, a, b) == LET G[k \in (a-1)..b] == IF k < a THEN <<>> ELSE Append(G[k-1], Pair(t, k)) IN G[b]
MaxI(a, b) == IF a > b THEN a ELSE b
Small(p) == DLt(DMul(VNorm(p.s), VNorm(p.y)), "1E-24")
Null(p) == \A i \in 1..Len(p.y) : DLe(DAbs(p.y[i]), "1E-14")
Fuzzy(p) == ~DEq(VSqNorm(p.y), 0) /\ ~DEq(VSqNorm(p.s), 0) /\ DLt(DAbs(Q!Curv(p)), DMul("1E-5", DMul(VNorm(p.s), VNorm(p.y))))
\* rounding: the differences carry an absolute error of about 1E-16 * size
Weak(t, p, x) == ~DEq(VSqNorm(p.s), 0) /\ DLt(VNorm(p.s), DMul("1E-7", Sz(x)))
Clean(t, h, x) == \A k \in 1..Len(h) : ~Fuzzy(h[k]) /\ ~Weak(t, h[k], x)
Along(a, s, d) == VClose(VSub(s.x, a.x), VScale(s.s, d), "1E-6", DAdd(DMul("1E-9", Sz(a.x)), DMul("1E-7", DMul(s.s, VMaxAbs(d)))))
LStep(t, i) ==
  LET a == t.steps[i-1]  s == t.steps[i]
      k == i - 2                          \* pairs made so far
      h == IF t.m = 0 THEN <<>> ELSE Pairs(t, MaxI(1, k - t.m + 1), k)
      g == DF(t.o, a.x)
      \* pairs whose y vanishes exactly in the specification count as null
      hh == [j \in 1..Len(h) |-> IF Null(h[j]) THEN [h[j] EXCEPT !.y = VZero(Len(@))] ELSE h[j]]
  IN IF s.exc # "" THEN [no_exception |-> FALSE]
     ELSE [direction |-> Clean(t, hh, a.x) => Along(a, s, Q!LDirection(hh, t.gamma, g)),
           iter_num |-> s.iter_num = i - 1]
BStep(t, i) ==
  LET a == t.steps[i-1]  s == t.steps[i]
      allp == Pairs(t, 1, i - 2)
      acc == Q!Accepted(allp)
      h == Q!Recent(acc, t.m)
      n == Len(a.x)
      th == Q!Theta(acc, t.gamma, t.theta)
      B == Q!BMat(h, th, n)
      g == DF(t.o, a.x)
      c == Q!Cauchy(a.x, g, t.l, t.u, B)
      z == Q!Subspace(a.x, g, t.l, t.u, B, c)
      fixed == VAxpy(s.s, z, a.x)
      ok == \A k \in 1..Len(allp) : ~Fuzzy(allp[k]) /\ ~Weak(t, allp[k], a.x)
      \* a coordinate (almost) at its bound
      edge == \E j \in 1..n : \E b \in {t.l[j], t.u[j]} : DIsFin(b) /\ ~DEq(a.x[j], b) /\ DLt(DAbs(DSub(a.x[j], b)), "1E-9")
  IN IF s.exc # "" THEN [no_exception |-> FALSE]
     ELSE [direction |-> (ok /\ ~c.tie /\ ~edge) => IF t.fixed THEN VClose(s.x, [j \in 1..n |-> DMax(t.l[j], DMin(t.u[j], fixed[j]))], "1E-6", DMul("1E-8", Sz(a.x)))
                                            ELSE Along(a, s, z),
           iter_num |-> s.iter_num = i - 1]
(* dense BFGS: the recorded matrix must be the update of the recorded one     *)
MFlat(A) == LET G[k \in 0..Len(A)] == IF k = 0 THEN <<>> ELSE G[k-1] \o A[k] IN G[Len(A)]
Unflat(v, n) == [i \in 1..n |-> SubSeq(v, (i-1)*n + 1, i*n)]
RECURSIVE PDMinor(_)
\* positive definite by elimination
PDMinor(A) == LET n == Len(A) IN
  IF n = 0 THEN TRUE
  ELSE /\ DLt(0, A[1][1])
       /\ PDMinor([i \in 1..(n-1) |-> [j \in 1..(n-1) |-> DSub(A[i+1][j+1], DDiv(DMul(A[i+1][1], A[1][j+1]), A[1][1]))]])
DenseStep(t, i) ==
  LET a == t.steps[i-1]  s == t.steps[i]  n == Len(a.x)
      g == DF(t.o, a.x)
      p0 == Pair(t, i-1)
      p == IF Null(p0) THEN [p0 EXCEPT !.y = VZero(n)] ELSE p0
      Ha == Unflat(a.H, n)  Hs == Unflat(s.H, n)
      ok == ~Fuzzy(p) /\ ~Weak(t, p, a.x)
      sz == DAdd(VMaxAbs(a.H), IF VFin(s.H) THEN VMaxAbs(s.H) ELSE 0)
  IN IF s.exc # "" THEN [no_exception |-> FALSE]
     ELSE [direction |-> Along(a, s, VScale("-1", MVec(Ha, g))),
           update |-> ok => VClose(s.H, MFlat(Q!HUpdate(Ha, p)), "1E-6", DMul("1E-7", sz)),
           secant |-> (ok /\ ~DEq(Q!Curv(p), 0)) => VClose(MVec(Hs, p.y), p.s, "1E-5", DMul("1E-6", DMul(VMaxAbs(s.H), VMaxAbs(p.y)))),
           symmetric |-> \A j, k \in 1..n : DClose(Hs[j][k], Hs[k][j], "1E-9", DMul("1E-9", sz)),
           \* an indefinite start (after a negative-curvature pair) is not judged
           positive_definite |-> (ok /\ DLt(0, Q!Curv(p)) /\ PDMinor(Ha) /\ DLt(sz, "1E4")) => PDMinor([j \in 1..n |-> [k \in 1..n |-> DAdd(Hs[j][k], IF j = k THEN DMul("1E-12", sz) ELSE "0")]]),
           finite |-> (VFin(a.H) /\ VFin(s.x)) => VFin(s.H),
           iter_num |-> s.iter_num = i - 1]
DenseInit(t, s) == IF s.exc # "" THEN [no_exception |-> FALSE] ELSE [identity |-> VNear(s.H, MFlat(Q!Eye(Len(s.x))))]
(* Broyden on r(x) = A x + q x^3 - c ; terms rebuilt from the iterates          *)
R(o, x) == DF(o, x)
RECURSIVE Terms(_, _)
\* the newest m terms after k updates (0 when degenerate: flagged)
Terms(t, k) ==
  IF k = 0 THEN [ts |-> <<>>, ok |-> TRUE]
  ELSE LET r == Terms(t, k - 1)
           dx == VSub(t.steps[k+1].x, t.steps[k].x)  dg == VSub(R(t.o, t.steps[k+1].x), R(t.o, t.steps[k].x))
           dn == Q!BroydenDenom(r.ts, t.gamma, dx, dg)
           size == DMul(VNorm(Q!JTVec(r.ts, t.gamma, dx)), VNorm(dg))
       IN IF ~r.ok \/ DLe(DAbs(dn), DMul("1E-4", size)) \/ DLt(VNorm(dx), DMul("1E-6", Sz(t.steps[k].x))) THEN [ts |-> r.ts, ok |-> FALSE]
          ELSE [ts |-> Q!Recent(Append(r.ts, Q!BroydenTerm(r.ts, t.gamma, dx, dg)), t.m), ok |-> TRUE]
BrStep(t, i) ==
  LET a == t.steps[i-1]  s == t.steps[i]  r == Terms(t, i - 2)
      d == VScale("-1", Q!JVec(r.ts, t.gamma, R(t.o, a.x)))
      v == R(t.o, s.x)
      big == \E k \in 1..Len(r.ts) : DGt(DMul(VMaxAbs(r.ts[k].c), VMaxAbs(r.ts[k].d)), "1E4")
  IN IF s.exc # "" THEN [no_exception |-> FALSE]
     ELSE [direction |-> (r.ok /\ ~big) => Along(a, s, d),
           value |-> VClose(s.value, v, "1E-8", DMul("1E-9", Sz(s.x))),
           error |-> DClose(s.error, VNorm(v), "1E-7", DMul("1E-8", Sz(s.x))),
           iter_num |-> s.iter_num = i - 1]
QuasiClauses(t, i) ==
  IF i = 1 THEN IF t.kind = "bfgs" THEN DenseInit(t, t.steps[1]) ELSE [no_exception |-> t.steps[1].exc = ""]
  ELSE CASE t.kind = "lbfgs" -> LStep(t, i)
         [] t.kind = "lbfgsb" -> BStep(t, i)
         [] t.kind = "bfgs" -> DenseStep(t, i)
         [] t.kind = "broyden" -> BrStep(t, i)
=============================================================================
