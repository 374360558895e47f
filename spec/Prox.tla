-------------------------------- MODULE Prox --------------------------------
(* Proximal operators: the minimiser over y of                              *)
(*   1/2 |x - y|^2 + scaling * penalty(y).  MCProx checks that no grid      *)
(* point is better than the closed forms below.                             *)
EXTENDS Dec, Integers, Sequences
Pos(v) == DMax(v, "0")
Soft(u, l) == IF DGt(u, l) THEN DSub(u, l) ELSE IF DLt(u, DNeg(l)) THEN DAdd(u, l) ELSE "0"
\* p = <<weights..., <<scaling>>>>
Sc(p) == p[Len(p)][1]
Each(x, f(_)) == [i \in 1..Len(x) |-> f(i)]
Prox(kind, x, p) ==
  CASE kind = "none" -> x
    [] kind = "lasso" -> Each(x, LAMBDA i : Soft(x[i], DMul(Sc(p), p[1][i])))
    [] kind = "nn_lasso" -> Each(x, LAMBDA i : Pos(DSub(x[i], DMul(Sc(p), p[1][i]))))
    [] kind = "enet" -> Each(x, LAMBDA i : DDiv(Soft(x[i], DMul(Sc(p), p[1][i])), DAdd(1, DMul(Sc(p), DMul(p[1][i], p[2][i])))))
    [] kind = "group" -> LET t == DMul(Sc(p), p[1][1]) IN
                         IF DLe(VSqNorm(x), DSq(t)) THEN VZero(Len(x)) ELSE VScale(DSub(1, DDiv(t, VNorm(x))), x)
    [] kind = "ridge" -> VScale(DDiv(1, DAdd(1, DMul(Sc(p), p[1][1]))), x)
    [] kind = "nn_ridge" -> Each(x, LAMBDA i : DDiv(Pos(x[i]), DAdd(1, DMul(Sc(p), p[1][1]))))

WAbs(y, w) == VSum([i \in 1..Len(y) |-> DMul(w[i], DAbs(y[i]))])
Penalty(kind, y, p) ==
  CASE kind = "none" -> "0"
    [] kind \in {"lasso", "nn_lasso"} -> WAbs(y, p[1])
    [] kind = "enet" -> VSum([i \in 1..Len(y) |-> DMul(p[1][i], DAdd(DAbs(y[i]), DMul("0.5", DMul(p[2][i], DSq(y[i])))))])
    [] kind = "group" -> DMul(p[1][1], VNorm(y))
    [] kind \in {"ridge", "nn_ridge"} -> DMul(DMul("0.5", p[1][1]), VSqNorm(y))
Objective(kind, x, y, p) == DAdd(DMul("0.5", VSqNorm(VSub(x, y))), DMul(Sc(p), Penalty(kind, y, p)))
Feasible(kind, y) == kind \in {"nn_lasso", "nn_ridge"} => \A i \in 1..Len(y) : DGe(y[i], 0)
=============================================================================
