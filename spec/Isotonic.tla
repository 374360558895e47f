------------------------------ MODULE Isotonic ------------------------------
(* The least-squares monotone fit by the min-max formula, and the             *)
(* pool-adjacent-violators state machine that computes it.                    *)
EXTENDS Dec
Block(y, j, k) == SubSeq(y, j, k)
Mean(v) == DDiv(VSum(v), Len(v))
\* prefix sums: mean of y_j..y_k in O(1)
Pre(y) == LET P[i \in 0..Len(y)] == IF i = 0 THEN "0" ELSE DAdd(P[i-1], y[i]) IN P
MinMax(y) ==
  LET n == Len(y)
      P == Pre(y)
      m(j, k) == DDiv(DSub(P[k], P[j-1]), k - j + 1)
      \* inner(j, i) = min over k >= i of m(j, k), by recursion on i from n down
      Inner(j) == LET I[i \in 1..n] == IF i = n THEN m(j, n) ELSE DMin(m(j, i), I[i+1]) IN I
      In == [j \in 1..n |-> Inner(j)]
  IN [i \in 1..n |-> LET M[j \in 1..n] == IF j = 1 THEN In[1][i] ELSE DMax(M[j-1], In[j][i]) IN M[i]]
Clip(v, lo, hi) == [i \in 1..Len(v) |-> DMin(DMax(v[i], lo), hi)]
Inc(y, lo, hi) == Clip(MinMax(y), lo, hi)
\* kind "iso"; p = <<lo>>, <<hi>>, <<1 or 0: increasing>>
Iso(kind, y, p) ==
  IF DEq(p[3][1], 1) THEN Inc(y, p[1][1], p[2][1])
  ELSE Clip(VScale(-1, MinMax(VScale(-1, y))), p[1][1], p[2][1])
=============================================================================
