------------------------------- MODULE MCQuasi -------------------------------
(* Quasi-Newton memories as ring buffers: a run feeds pairs from a small grid *)
(* into slots k % m (L-BFGS: every pair; L-BFGS-B: pairs of positive          *)
(* curvature only, with their own counter).  Checked in every state:          *)
(*  - unrolling the ring from its write position gives the m most recent      *)
(*    (accepted) pairs in order of age;                                       *)
(*  - the recursion applied to them has the secant property, agrees with the  *)
(*    dense update, is symmetric, positive definite when all curvatures are   *)
(*    positive, and B and H are inverses of each other;                       *)
(*  - the L-BFGS-B direction stays in the box, does not increase the model,   *)
(*    and is at least as good as the Cauchy point;                            *)
(*  - Broyden's inverse Jacobian maps dg to dx before the memory wraps, and   *)
(*    J and J' are adjoint.                                                   *)
EXTENDS Quasi, FiniteSets, TLC
CONSTANTS M, K, Bug
VARIABLES ring, nup, kind, all, terms
vars == <<ring, nup, kind, all, terms>>
Steps == {<<"1", "0">>, <<"0.5", "1">>, <<"-1", "2">>}
Diffs == {<<"1", "0.5">>, <<"-2", "1">>, <<"0", "1">>}
None == [s |-> <<>>, y |-> <<>>]
Init == ring = [i \in 0..(M-1) |-> None] /\ nup = 0 /\ kind \in {"lbfgs", "lbfgsb", "broyden"} /\ all = <<>> /\ terms = <<>>
Feed(p) ==
  /\ Len(all) < K
  /\ all' = Append(all, p)
  /\ IF kind = "lbfgsb" /\ ~DLt(0, Curv(p)) THEN UNCHANGED <<ring, nup>>
     ELSE ring' = [ring EXCEPT ![nup % M] = p] /\ nup' = nup + 1
  /\ terms' = IF kind # "broyden" THEN terms
              ELSE IF DEq(BroydenDenom(Recent(terms, M), "1", p.s, p.y), 0) THEN terms
              ELSE Append(terms, BroydenTerm(Recent(terms, M), "1", p.s, p.y))
  /\ UNCHANGED kind
Next == \E s \in Steps, y \in Diffs : Feed([s |-> s, y |-> y])
\* reading the ring from its write position, skipping empty slots
Unroll == LET start == IF Bug THEN 0 ELSE nup % M
              q == [i \in 1..M |-> ring[(start + i - 1) % M]]
          IN SelectSeq(q, LAMBDA p : p # None)
Hist == IF kind = "lbfgsb" THEN Recent(Accepted(all), M) ELSE Recent(all, M)
RingIsRecent == kind = "broyden" \/ Unroll = Hist
H == Hist
RECURSIVE Dense(_, _)
Dense(h, gm) == IF h = <<>> THEN MScale(gm, Eye(2)) ELSE HUpdate(Dense(Front(h), gm), Last(h))
Gm == Gamma(H, TRUE)
Tiny == "1E-20"
Near(a, b) == VClose(a, b, "1E-20", Tiny)
HDense == kind # "broyden" =>
  LET Hd == Dense(H, Gm)
  IN /\ \A j \in 1..2 : Near(HVec(H, Gm, Eye(2)[j]), MCol(Hd, j))
     /\ DClose(Hd[1][2], Hd[2][1], Tiny, Tiny)
     /\ (H # <<>> /\ ~DEq(Curv(Last(H)), 0)) => Near(HVec(H, Gm, Last(H).y), Last(H).s)
PD == LET Hd == Dense(H, "1") IN (kind # "broyden" /\ \A i \in 1..Len(H) : DLt(0, Curv(H[i]))) =>
        DLt(0, Hd[1][1]) /\ DLt(0, DSub(DMul(Hd[1][1], Hd[2][2]), DMul(Hd[1][2], Hd[2][1])))
Inverse == kind = "lbfgsb" =>
  LET B == BMat(H, "0.5", 2)  Hd == Dense(H, "2")
  IN \A j \in 1..2 : Near(MVec(B, MCol(Hd, j)), Eye(2)[j])
Boxed == kind = "lbfgsb" =>
  LET th == Theta(H, TRUE, "1")  B == BMat(H, th, 2)
  IN \A x \in {<<"0", "0.5">>, <<"1", "0">>}, g \in {<<"1", "-2">>, <<"-3", "0">>, <<"0.25", "0.5">>} :
       LET l == <<"-0.5", "0">>  u == <<"1", "0.75">>
           c == Cauchy(x, g, l, u, B)  z == Subspace(x, g, l, u, B, c)
       IN /\ \A i \in 1..2 : DLe(l[i], DAdd(DAdd(x[i], z[i]), Tiny)) /\ DLe(DAdd(x[i], z[i]), DAdd(u[i], Tiny))
          /\ DLe(Model(g, B, z), DAdd(Model(g, B, c.z), Tiny))
          /\ DLe(Model(g, B, c.z), 0)
          /\ (\E i \in 1..2 : ~DEq(ProjGrad(x, g, l, u)[i], 0)) => DLt(Model(g, B, c.z), 0)
          \* the Cauchy point is the first local minimiser of the model along
          \* the projected path: no earlier point of the path is lower
          /\ \A k \in 1..8 :
               LET sc == DDiv(k, 8)
                   p(tt) == [i \in 1..2 |-> DSub(DMax(l[i], DMin(u[i], DSub(x[i], DMul(tt, g[i])))), x[i])]
                   tmax == LET m == {i \in 1..2 : ~DEq(g[i], 0) /\ i \in c.free}
                           IN IF m = {} THEN "0" ELSE LET i == CHOOSE i \in m : TRUE IN DNeg(DDiv(c.z[i], g[i]))
               IN DLe(Model(g, B, c.z), DAdd(Model(g, B, p(DMul(sc, tmax))), Tiny))
BroydenSecant == (kind = "broyden" /\ terms # <<>> /\ Len(terms) <= M) =>
  \A v \in Steps, w \in Diffs : DClose(VDot(JVec(terms, "1", v), w), VDot(v, JTVec(terms, "1", w)), Tiny, Tiny)
\* the step that appended the newest term satisfied its secant equation
SecantStep == [][(kind = "broyden" /\ Len(terms') > Len(terms) /\ Len(terms') <= M) =>
                   Near(JVec(terms', "1", Last(all').y), Last(all').s)]_vars
=============================================================================
