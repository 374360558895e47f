--------------------------------- MODULE Mix ---------------------------------
(***************************************************************************)
(* Anderson acceleration.  Of a history h of points x with residuals r      *)
(*   - the weights sum to one and minimise |sum a_i r_i|^2 + ridge |a|^2,    *)
(*   - the mixed point is sum a_i (x_i + beta r_i).                          *)
(* Update number n (from 0) applies the map to the current parameters, or,   *)
(* when n >= m and the mixing frequency f divides n, to the mixed point of   *)
(* the m most recent points the map was applied to.                          *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences
Mixes(n, m, f) == n >= m /\ n % f = 0
Gram(h) == [i \in 1..Len(h) |-> [j \in 1..Len(h) |-> VDot(h[i].r, h[j].r)]]
\* stationarity of the Lagrangian: (G + ridge I) a = mu 1, sum a = 1
Weights(G, ridge) ==
  LET m == Len(G)
      A == [i \in 1..(m+1) |-> [j \in 1..(m+1) |->
             IF i = 1 THEN (IF j = 1 THEN "0" ELSE "1")
             ELSE IF j = 1 THEN "1" ELSE DAdd(G[i-1][j-1], IF i = j THEN ridge ELSE "0")]]
      b == [i \in 1..(m+1) |-> IF i = 1 THEN "1" ELSE "0"]
      z == MSolve(A, b)
  IN IF z = <<>> THEN <<>> ELSE SubSeq(z, 2, m + 1)
Combine(h, a, beta) ==
  LET S[i \in 0..Len(h)] == IF i = 0 THEN VZero(Len(h[1].x)) ELSE VAxpy(a[i], VAxpy(beta, h[i].r, h[i].x), S[i-1])
  IN S[Len(h)]
Mixed(h, ridge, beta) == LET a == Weights(Gram(h), ridge) IN IF a = <<>> THEN <<>> ELSE Combine(h, a, beta)
MixObj(G, ridge, a) == DAdd(VDot(a, MVec(G, a)), DMul(ridge, VSqNorm(a)))
Recent(h, m) == IF Len(h) <= m THEN h ELSE SubSeq(h, Len(h) - m + 1, Len(h))
=============================================================================
