------------------------------- MODULE MCSens -------------------------------
(* The sensitivities of Sens.tla against central differences of the solution  *)
(* map in two variables, the solution being computed without any of its        *)
(* formulas: by a projected/proximal gradient iteration (box, penalty, ball),  *)
(* or in closed form along the lines that bound the set (A, G, l1).            *)
EXTENDS Sens, TLC
CONSTANT Bug
VARIABLES kind, p, d, x
vars == <<kind, p, d, x>>
Z == <<"0", "0">>
Base == [Q |-> <<<<"2", "0.5">>, <<"0.5", "1">>>>, a |-> <<"0.25", "0.5">>, k |-> "0", s |-> "1", c |-> Z, lo |-> <<"-inf", "-inf">>, hi |-> <<"inf", "inf">>,
         A |-> <<>>, b |-> <<>>, G |-> <<>>, h |-> <<>>, lam |-> Z, gam |-> "0", grp |-> "0", ent |-> "0", l1 |-> "inf", rad |-> "inf", sphere |-> FALSE]
CONSTANT Cs
Small == {<<"-2", "0.2">>, <<"0.3", "1.5">>, <<"1", "-1">>}
Large == {<<u, w>> : u \in {"-2", "0.3", "1"}, w \in {"-1", "0.2", "1.5"}}
Problems == [
  free |-> {[Base EXCEPT !.c = c, !.k = k, !.s = s] : c \in Cs, k \in {"0", "1"}, s \in {"1", "-1"}},
  box |-> {[Base EXCEPT !.c = c, !.lo = <<"-0.25", "0.1">>, !.hi = hi, !.k = k] : c \in Cs, hi \in {<<"0.3", "inf">>, <<"0.1", "0.7">>}, k \in {"0", "1"}},
  lasso |-> {[Base EXCEPT !.c = c, !.lam = l, !.gam = g] : c \in Cs, l \in {<<"0.2", "0.2">>, <<"0.4", "0.1">>}, g \in {"0", "0.5"}},
  poslasso |-> {[Base EXCEPT !.c = c, !.lam = <<"0.2", "0.2">>, !.lo = Z] : c \in Cs},
  group |-> {[Base EXCEPT !.c = c, !.grp = g, !.k = k] : c \in Cs, g \in {"0.3", "1.6"}, k \in {"0", "1"}},
  entropy |-> {[Base EXCEPT !.c = c, !.ent = e, !.A = <<<<"1", "2">>>>, !.b = <<"1.2">>, !.Q = q] : c \in Cs, e \in {"0.5", "1"}, q \in {Base.Q, <<Z, Z>>}},
  ball |-> {[Base EXCEPT !.c = c, !.rad = r, !.k = k] : c \in Cs, r \in {"0.5", "1"}, k \in {"0", "1"}},
  line |-> {[Base EXCEPT !.c = c, !.A = <<a>>, !.b = <<"0.4">>, !.lo = lo, !.hi = hi] : c \in Cs, a \in {<<"1", "1">>, <<"2", "-1">>}, lo \in {Z, <<"-inf", "-inf">>}, hi \in {<<"0.3", "1">>, <<"inf", "inf">>}},
  half |-> {[Base EXCEPT !.c = c, !.G = <<g>>, !.h = <<"0.3">>] : c \in Cs, g \in {<<"1", "2">>, <<"1", "-1">>}},
  diamond |-> {[Base EXCEPT !.c = c, !.l1 = l] : c \in Cs, l \in {"0.4", "0.9"}}]
\* directions, one block of parameters at a time
None == [Q |-> <<Z, Z>>, a |-> Z, c |-> Z, lo |-> Z, hi |-> Z, A |-> <<Z>>, b |-> <<"0">>, G |-> <<Z>>, h |-> <<"0">>, lam |-> Z, gam |-> "0", grp |-> "0", ent |-> "0", l1 |-> "0", rad |-> "0"]
Dirs == {[None EXCEPT !.Q = <<<<"1", "0.5">>, <<"0.5", "-1">>>>], [None EXCEPT !.a = <<"1", "-2">>], [None EXCEPT !.c = <<"1", "0.5">>],
         [None EXCEPT !.lo = <<"1", "-1">>], [None EXCEPT !.A = <<<<"1", "0">>>>], [None EXCEPT !.rad = "1"], [None EXCEPT !.hi = <<"1", "2">>], [None EXCEPT !.b = <<"1">>], [None EXCEPT !.l1 = "1"],
         [None EXCEPT !.lam = <<"1", "3">>], [None EXCEPT !.G = <<<<"1", "-1">>>>], [None EXCEPT !.gam = "1"], [None EXCEPT !.grp = "1"], [None EXCEPT !.ent = "1"], [None EXCEPT !.h = <<"1">>], [None EXCEPT !.A = <<<<"0", "1">>>>]}
Moves == [free |-> {"Q", "a", "c"}, box |-> {"Q", "a", "c", "lo", "hi"}, lasso |-> {"Q", "c", "lam", "gam"}, poslasso |-> {"Q", "c", "lam"}, ball |-> {"Q", "a", "c", "rad"}, group |-> {"Q", "a", "c", "grp"}, entropy |-> {"Q", "a", "c", "ent", "A", "b"},
          line |-> {"Q", "c", "lo", "hi", "A", "b"}, half |-> {"a", "c", "G", "h"}, diamond |-> {"Q", "c", "l1"}]
\* ------------------------------------------------ the solution map, directly
Move(u, t, w) == IF DIsFin(u) THEN DAdd(u, DMul(t, w)) ELSE u
Shift(t) == [p EXCEPT !.Q = [i \in 1..2 |-> VAxpy(t, d.Q[i], p.Q[i])], !.a = VAxpy(t, d.a, p.a), !.c = VAxpy(t, d.c, p.c),
               !.lo = [i \in 1..2 |-> Move(p.lo[i], t, d.lo[i])], !.hi = [i \in 1..2 |-> Move(p.hi[i], t, d.hi[i])],
               !.A = [i \in 1..Len(p.A) |-> VAxpy(t, d.A[i], p.A[i])], !.b = [i \in 1..Len(p.b) |-> DAdd(p.b[i], DMul(t, d.b[i]))],
               !.G = [i \in 1..Len(p.G) |-> VAxpy(t, d.G[i], p.G[i])], !.h = [i \in 1..Len(p.h) |-> DAdd(p.h[i], DMul(t, d.h[i]))],
               !.lam = VAxpy(t, d.lam, p.lam), !.gam = Move(p.gam, t, d.gam), !.grp = Move(p.grp, t, d.grp), !.ent = Move(p.ent, t, d.ent), !.l1 = Move(p.l1, t, d.l1), !.rad = Move(p.rad, t, d.rad)]
Grad(q, z) == [i \in 1..2 |-> DSub(DAdd(DAdd(MVec(q.Q, z)[i], DMul(q.a[i], z[i])), DMul(q.k, DMul(z[i], DSq(z[i])))), DMul(q.s, q.c[i]))]
Soft(u, l) == DMul(DSign(u), DMax("0", DSub(DAbs(u), l)))
Clip(u, a, b) == DMax(a, DMin(u, b))
Step(q) == IF q.k = "0" THEN "0.45" ELSE "0.25"
Prox(q, st, y) ==
  IF DGt(q.grp, "0") THEN LET l == DMul(st, q.grp) IN IF DLe(VNorm(y), l) THEN Z ELSE VScale(DSub("1", DDiv(l, VNorm(y))), y)
  ELSE
  LET z == [i \in 1..2 |-> Clip(DDiv(Soft(y[i], DMul(st, q.lam[i])), DAdd("1", DMul(st, DMul(q.lam[i], q.gam)))), q.lo[i], q.hi[i])]
  IN IF DGt(VNorm(z), q.rad) THEN VScale(DDiv(q.rad, VNorm(z)), z) ELSE z
Iterate(q) == LET st == Step(q)
                  n == IF q.k = "0" THEN 55 ELSE 95
                  X[i \in 0..n] == IF i = 0 THEN Z ELSE LET y == X[i-1] IN Prox(q, st, VAxpy(DNeg(st), Grad(q, y), y))
              IN X[n]
Hq(q) == [i \in 1..2 |-> [j \in 1..2 |-> DAdd(q.Q[i][j], IF i = j THEN q.a[i] ELSE "0")]]
Val(q, z) == DSub(DMul("0.5", VDot(z, MVec(Hq(q), z))), DMul(q.s, VDot(q.c, z)))
\* best point of { x : r x = e } with t in [tl, th] along x0 + t z
OnLine(q, r, e, lo, hi) ==
  LET x0 == VScale(DDiv(e, VSqNorm(r)), r)
      z == <<DNeg(r[2]), r[1]>>
      Lim(i, b) == DDiv(DSub(b, x0[i]), z[i])
      Ends(i) == IF DEq(z[i], "0") THEN <<"-inf", "inf">> ELSE IF DGt(z[i], "0") THEN <<Lim(i, lo[i]), Lim(i, hi[i])>> ELSE <<Lim(i, hi[i]), Lim(i, lo[i])>>
      tl == DMax(Ends(1)[1], Ends(2)[1])
      th == DMin(Ends(1)[2], Ends(2)[2])
      best == DDiv(DNeg(VDot(z, Grad(q, x0))), VDot(z, MVec(Hq(q), z)))
  IN VAxpy(Clip(best, tl, th), z, x0)
\* entropy: bisection along { x : A x = b, x > 0 }, from a point on the line
EntLine(q) ==
  LET r == q.A[1]
      z == <<DNeg(r[2]), r[1]>>
      At(t) == <<DAdd(DDiv(q.b[1], r[1]), DMul(t, z[1])), DMul(t, z[2])>>
      top == DDiv(q.b[1], DMul(r[1], r[2]))
      Rise(t) == LET y == At(t) IN VDot(z, VAdd(Grad(q, y), [i \in 1..2 |-> DMul(q.ent, DLog(y[i]))]))
      S[i \in 0..110] == IF i = 0 THEN <<"0", top>> ELSE LET b == S[i-1] IN LET m == DMul("0.5", DAdd(b[1], b[2])) IN IF DGt(Rise(m), "0") THEN <<b[1], m>> ELSE <<m, b[2]>>
  IN At(S[110][1])
Inf2 == <<"inf", "inf">>
NInf2 == <<"-inf", "-inf">>
Free(q) == MSolve(Hq(q), VScale(q.s, q.c))
Edge(q, s1, s2) == LET B(sg) == IF sg = "1" THEN <<"0", "inf">> ELSE <<"-inf", "0">> IN OnLine(q, <<s1, s2>>, q.l1, <<B(s1)[1], B(s2)[1]>>, <<B(s1)[2], B(s2)[2]>>)
Sol(q) ==
  CASE kind = "entropy" -> EntLine(q)
    [] kind = "line" -> OnLine(q, q.A[1], q.b[1], q.lo, q.hi)
    [] kind = "half" -> IF DLe(VDot(q.G[1], Free(q)), q.h[1]) THEN Free(q) ELSE OnLine(q, q.G[1], q.h[1], NInf2, Inf2)
    [] kind = "diamond" -> IF DLe(DAdd(DAbs(Free(q)[1]), DAbs(Free(q)[2])), q.l1) THEN Free(q)
                           ELSE LET E == {Edge(q, s1, s2) : s1 \in {"1", "-1"}, s2 \in {"1", "-1"}} IN CHOOSE z \in E : \A y \in E : DLe(Val(q, z), DAdd(Val(q, y), "1E-35"))
    [] OTHER -> Iterate(q)
Init == /\ kind \in DOMAIN Problems
        /\ p \in Problems[kind]
        /\ d = None /\ x = <<>>
Next == \/ x = <<>> /\ x' = Sol(p) /\ UNCHANGED <<kind, p, d>>
        \/ /\ x # <<>> /\ d = None
           /\ d' \in {e \in Dirs : \E f \in Moves[kind] : e[f] # None[f]}
           /\ UNCHANGED <<kind, p, x>>
eps == "1E-6"
Diff == VScale(DDiv("0.5", eps), VSub(Sol(Shift(eps)), Sol(Shift(DNeg(eps)))))
Sum2(M, N) == VSum([i \in 1..Len(M) |-> VDot(M[i], N[i])])
Pair(g) == VSum(<<Sum2(g.Q, d.Q), VDot(g.a, d.a), VDot(g.c, d.c), VDot(g.lo, d.lo), VDot(g.hi, d.hi), Sum2(g.A, d.A), VSum([i \in 1..Len(g.b) |-> DMul(g.b[i], d.b[i])]),
                  Sum2(g.G, d.G), VSum([i \in 1..Len(g.h) |-> DMul(g.h[i], d.h[i])]), VDot(g.lam, d.lam), DMul(g.gam[1], d.gam), DMul(g.grp[1], d.grp), DMul(g.ent[1], d.ent), DMul(g.l1[1], d.l1), DMul(g.rad[1], d.rad)>>)
cs == Active(p, x)
nu == Mult(p, x, cs)
Judged == (Len(cs) = 0 \/ nu # <<>>) /\ Strict(p, x, cs, nu)
H == IF Bug THEN Curve(p, x) ELSE Hess(p, x, cs, nu)
Right == d # None /\ Judged => LET df == Diff IN \A v \in {<<"1", "0">>, <<"-0.5", "2">>} :
  LET z == Adj(H, cs, v) IN z # <<>> /\ DClose(VDot(v, df), Pair(Cot(p, x, cs, nu, z)), "1E-7", "1E-7")
IsSolution == x # <<>> /\ d = None /\ Judged => DLe(Stationary(p, x, cs, nu), "1E-12")
=============================================================================
