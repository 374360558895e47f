-------------------------------- MODULE Proj --------------------------------
(***************************************************************************)
(* The nearest point of each set jaxopt projects on, defined by the        *)
(* optimality (KKT) conditions: enumerate supports / active sets and take  *)
(* the one that satisfies them.  MCProj checks these definitions against   *)
(* brute force over grid points of the sets.                               *)
(* Parameters are sequences of vectors, so that they can be perturbed.     *)
(***************************************************************************)
EXTENDS Dec, FiniteSets, Integers, Sequences

Idx(x) == 1..Len(x)
SumSel(x, S) == VSum([i \in Idx(x) |-> IF i \in S THEN x[i] ELSE "0"])
Clip(v, l, u) == DMin(DMax(v, l), u)
Pos(v) == DMax(v, "0")
VAbs(x) == [i \in Idx(x) |-> DAbs(x[i])]
Norm1(x) == VSum(VAbs(x))
Col(A, i) == [k \in 1..Len(A) |-> A[k][i]]

NonNeg(x) == [i \in Idx(x) |-> Pos(x[i])]
Box(x, l, u) == [i \in Idx(x) |-> Clip(x[i], l[i], u[i])]

Threshold(x, s) ==
  LET tau(S) == DDiv(DSub(SumSel(x, S), s), Cardinality(S))
      ok(S) == LET t == tau(S) IN \A i \in Idx(x) : IF i \in S THEN DGt(x[i], t) ELSE DLe(x[i], t)
  IN tau(CHOOSE S \in SUBSET Idx(x) \ {{}} : ok(S))
Simplex(x, s) == LET t == Threshold(x, s) IN [i \in Idx(x) |-> Pos(DSub(x[i], t))]

\* the l1 sphere: keep the signs, project the absolute values (a zero may get either sign)
L1Sphere(x, s) == LET y == Simplex(VAbs(x), s) IN [i \in Idx(x) |-> IF DLt(x[i], 0) THEN DNeg(y[i]) ELSE y[i]]
L1Ball(x, s) == IF DLe(Norm1(x), s) THEN x ELSE L1Sphere(x, s)
L2Sphere(x, s) == VScale(DDiv(s, VNorm(x)), x)
L2Ball(x, s) == IF DLe(VSqNorm(x), DSq(s)) THEN x ELSE L2Sphere(x, s)
LinfBall(x, s) == [i \in Idx(x) |-> Clip(x[i], DNeg(s), s)]
Hyperplane(x, a, b) == VAxpy(DNeg(DDiv(DSub(VDot(a, x), b), VSqNorm(a))), a, x)
Halfspace(x, a, b) == IF DLe(VDot(a, x), b) THEN x ELSE Hyperplane(x, a, b)

Gram(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> VDot(A[i], A[j])]]
\* multipliers of the projection on A y = b ; <<>> if A A^T is singular
AffineMult(x, A, b) == MSolve(Gram(A), VSub(MVec(A, x), b))
Affine(x, A, b) == IF Len(A) = 0 THEN x ELSE VSub(x, MTVec(A, AffineMult(x, A, b)))

SubSeqOf(s, I) == \* elements of s with index in I, in order
  LET F[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE IF k \in I THEN Append(F[k-1], s[k]) ELSE F[k-1] IN F[Len(s)]
\* projection on A y = b, G y <= h: an active set whose multipliers are >= 0
\* and whose point is feasible; <<>> if there is none
Polyhedron(x, A, b, G, h, slack) ==
  LET m == Len(A)
      M(I) == A \o SubSeqOf(G, I)
      r(I) == b \o SubSeqOf(h, I)
      lam(I) == IF M(I) = <<>> THEN <<>> ELSE AffineMult(x, M(I), r(I))
      pt(I) == IF M(I) = <<>> THEN x ELSE VSub(x, MTVec(M(I), lam(I)))
      ok(I) == /\ M(I) = <<>> \/ lam(I) # <<>>
               /\ \A k \in (m+1)..Len(lam(I)) : DGe(lam(I)[k], DNeg(slack))
               /\ LET y == pt(I) IN \A k \in 1..Len(G) : DLe(VDot(G[k], y), DAdd(h[k], slack))
      good == {I \in SUBSET (1..Len(G)) : ok(I)}
  IN IF good = {} THEN <<>> ELSE pt(CHOOSE I \in good : TRUE)

\* l <= p <= u, w.p = c (w > 0): p = clip(x + tau w), tau found between two
\* neighbouring break points of the piecewise linear map tau |-> w.p
BoxSectionTau(x, l, u, w, c) ==
  LET at(t) == [i \in Idx(x) |-> Clip(DAdd(x[i], DMul(t, w[i])), l[i], u[i])]
      phi(t) == VDot(w, at(t))
      B == {DDiv(DSub(l[i], x[i]), w[i]) : i \in Idx(x)} \union {DDiv(DSub(u[i], x[i]), w[i]) : i \in Idx(x)}
      below == {t \in B : DLe(phi(t), c)}
      above == {t \in B : DGe(phi(t), c)}
      lo == CHOOSE t \in below : \A s \in below : DLe(s, t)
      hi == CHOOSE t \in above : \A s \in above : DLe(t, s)
  IN IF below = {} THEN CHOOSE t \in B : \A s \in B : DLe(t, s)
     ELSE IF above = {} THEN CHOOSE t \in B : \A s \in B : DLe(s, t)
     ELSE IF DLe(hi, lo) THEN lo
     ELSE DAdd(lo, DDiv(DMul(DSub(c, phi(lo)), DSub(hi, lo)), DSub(phi(hi), phi(lo))))
BoxSection(x, l, u, w, c) ==
  LET t == BoxSectionTau(x, l, u, w, c) IN [i \in Idx(x) |-> Clip(DAdd(x[i], DMul(t, w[i])), l[i], u[i])]
\* no coordinate within m of a bound before clipping (the active set is robust)
BoxSectionMargin(x, l, u, w, c, m) ==
  LET t == BoxSectionTau(x, l, u, w, c) IN
  \A i \in Idx(x) : LET v == DAdd(x[i], DMul(t, w[i])) IN ~DClose(v, l[i], 0, m) /\ ~DClose(v, u[i], 0, m)

\* at most k non-zeros on the simplex: best support (ties: any of them)
SparseSimplexOn(x, S, s) ==
  LET xs == SubSeqOf(x, S)  t == Threshold(xs, s)
  IN [i \in Idx(x) |-> IF i \in S THEN Pos(DSub(x[i], t)) ELSE "0"]
SqDist(x, y) == VSqNorm(VSub(x, y))
SparseSimplexDist(x, k, s) ==
  LET D == {SqDist(x, SparseSimplexOn(x, S, s)) : S \in {T \in SUBSET Idx(x) : Cardinality(T) = k}}
  IN CHOOSE d \in D : \A e \in D : DLe(d, e)

(* ---- transportation polytope: row sums a, column sums b (P as rows) ---- *)
Flat(P) == LET F[i \in 0..Len(P)] == IF i = 0 THEN <<>> ELSE F[i-1] \o P[i] IN F[Len(P)]
\* vertices: bases of m+n-1 cells; the last column constraint is dropped
Vertices(a, b) ==
  LET m == Len(a)  n == Len(b)  N == m * n
      row(k) == ((k - 1) \div n) + 1
      col(k) == ((k - 1) % n) + 1
      bases == {B \in SUBSET (1..N) : Cardinality(B) = m + n - 1}
      cells(B) == SubSeqOf([k \in 1..N |-> k], B)
      Mx(B) == LET c == cells(B) IN
                 [r \in 1..(m+n-1) |-> [j \in 1..(m+n-1) |->
                    IF (r <= m /\ row(c[j]) = r) \/ (r > m /\ col(c[j]) = r - m) THEN "1" ELSE "0"]]
      rhs == a \o SubSeq(b, 1, n - 1)
      sol(B) == MSolve(Mx(B), rhs)
      pt(B) == LET s == sol(B)  c == cells(B) IN
                 [k \in 1..N |-> IF k \in B THEN s[CHOOSE j \in 1..Len(c) : c[j] = k] ELSE "0"]
  IN {pt(B) : B \in {B \in bases : LET s == sol(B) IN s # <<>> /\ \A j \in 1..Len(s) : DGe(s[j], "-1E-25")}}
PermVertices(n) ==
  LET perms == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
  IN {[k \in 1..(n*n) |-> IF f[((k-1) \div n) + 1] = ((k-1) % n) + 1 THEN "1" ELSE "0"] : f \in perms}
RowSums(P) == [i \in 1..Len(P) |-> VSum(P[i])]
ColSums(P) == [j \in 1..Len(P[1]) |-> VSum(Col(P, j))]
Marginals(P, a, b, tol) == VClose(RowSums(P), a, 0, tol) /\ VClose(ColSums(P), b, 0, tol)
\* variational inequality over the vertices V (P flattened)
Nearest(S, P, V, tol) == \A z \in V : DLe(VDot(VSub(S, P), VSub(z, P)), tol)
\* minimiser of KL(P, exp(S)) with given marginals: log P - S is a_i + b_j
KLCert(S, P, tol) ==
  LET D == [i \in 1..Len(P) |-> [j \in 1..Len(P[1]) |-> DSub(DLog(P[i][j]), S[i][j])]]
  IN /\ \A i \in 1..Len(P), j \in 1..Len(P[1]) : DGt(P[i][j], 0)
     /\ \A i \in 1..Len(P), j \in 1..Len(P[1]) :
          DClose(DAdd(DSub(DSub(D[i][j], D[i][1]), D[1][j]), D[1][1]), 0, 0, tol)

(* ---------------------- dispatch, and derivatives ---------------------- *)
P(kind, x, p) ==
  CASE kind = "non_negative" -> NonNeg(x)
    [] kind = "box" -> Box(x, p[1], p[2])
    [] kind = "hypercube" -> Box(x, VZero(Len(x)), [i \in Idx(x) |-> p[1][1]])
    [] kind = "simplex" -> Simplex(x, p[1][1])
    [] kind = "l1_sphere" -> L1Sphere(x, p[1][1])
    [] kind = "l1_ball" -> L1Ball(x, p[1][1])
    [] kind = "l2_sphere" -> L2Sphere(x, p[1][1])
    [] kind = "l2_ball" -> L2Ball(x, p[1][1])
    [] kind = "linf_ball" -> LinfBall(x, p[1][1])
    [] kind = "hyperplane" -> Hyperplane(x, p[1], p[2][1])
    [] kind = "halfspace" -> Halfspace(x, p[1], p[2][1])
    [] kind = "box_section" -> BoxSection(x, p[1], p[2], p[3], p[4][1])
    [] kind = "affine_set" -> Affine(x, SubSeq(p, 2, Len(p)), p[1])

PAxpy(h, dp, p) == [i \in 1..Len(p) |-> VAxpy(h, dp[i], p[i])]
\* one-sided difference quotients of P along (dx, dp) with step h (either sign)
Quot(kind, x, dx, p, dp, h) ==
  VScale(DDiv(1, h), VSub(P(kind, VAxpy(h, dx, x), PAxpy(h, dp, p)), P(kind, x, p)))
Fwd(kind, x, dx, p, dp) == Quot(kind, x, dx, p, dp, "1E-18")
\* no kink within 1e-7
NoKink(kind, x, dx, p, dp) ==
  VClose(Quot(kind, x, dx, p, dp, "1E-7"), Quot(kind, x, dx, p, dp, "-1E-7"), "1E-3", "1E-4")

(* ----------------------- membership, for MCProj ------------------------ *)
In(kind, y, p, eps) ==
  CASE kind = "non_negative" -> \A i \in Idx(y) : DGe(y[i], DNeg(eps))
    [] kind = "box" -> \A i \in Idx(y) : DGe(y[i], DSub(p[1][i], eps)) /\ DLe(y[i], DAdd(p[2][i], eps))
    [] kind = "hypercube" -> \A i \in Idx(y) : DGe(y[i], DNeg(eps)) /\ DLe(y[i], DAdd(p[1][1], eps))
    [] kind = "simplex" -> DClose(VSum(y), p[1][1], 0, eps) /\ \A i \in Idx(y) : DGe(y[i], DNeg(eps))
    [] kind = "l1_sphere" -> DClose(Norm1(y), p[1][1], 0, eps)
    [] kind = "l1_ball" -> DLe(Norm1(y), DAdd(p[1][1], eps))
    [] kind = "l2_sphere" -> DClose(VSqNorm(y), DSq(p[1][1]), 0, eps)
    [] kind = "l2_ball" -> DLe(VSqNorm(y), DAdd(DSq(p[1][1]), eps))
    [] kind = "linf_ball" -> DLe(VMaxAbs(y), DAdd(p[1][1], eps))
    [] kind = "hyperplane" -> DClose(VDot(p[1], y), p[2][1], 0, eps)
    [] kind = "halfspace" -> DLe(VDot(p[1], y), DAdd(p[2][1], eps))
    [] kind = "box_section" -> /\ \A i \in Idx(y) : DGe(y[i], DSub(p[1][i], eps)) /\ DLe(y[i], DAdd(p[2][i], eps))
                               /\ DClose(VDot(p[3], y), p[4][1], 0, eps)
    [] kind = "affine_set" -> LET A == SubSeq(p, 2, Len(p)) IN VClose(MVec(A, y), p[1], 0, eps)
=============================================================================
