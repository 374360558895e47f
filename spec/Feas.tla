--------------------------------- MODULE Feas --------------------------------
(***************************************************************************)
(* Constrained methods as moves inside a set C (a kind of Proj.tla).        *)
(*   project   x' = P(y)                  whatever y is                     *)
(*   segment   x' = x + s (z - x)         x, z in C, 0 <= s <= the longest   *)
(*                                        step that stays in C (>= 1)        *)
(*   clip      one coordinate at a time into [l_i, u_i]                      *)
(*   multiply  x'_i proportional to x_i w_i, w > 0 (entropic mirror step)    *)
(* Stationarity of x on C: x = P(x - g), equivalently g.(y - x) >= 0 for     *)
(* every y of C.                                                             *)
(***************************************************************************)
EXTENDS Proj
Project(kind, y, p) == P(kind, y, p)
\* longest step along d from x inside a box, never less than 1
LongestStep(x, d, l, u) ==
  LET S == {IF DLt(0, d[i]) THEN DDiv(DSub(u[i], x[i]), d[i]) ELSE DDiv(DSub(l[i], x[i]), d[i]) : i \in {i \in Idx(x) : ~DEq(d[i], 0)}}
  IN IF S = {} THEN "1" ELSE DMax("1", CHOOSE s \in S : \A r \in S : DLe(s, r))
Segment(x, z, s) == VAxpy(s, VSub(z, x), x)
Multiply(x, w) == LET q == [i \in Idx(x) |-> DMul(x[i], w[i])] IN VScale(DDiv(1, VSum(q)), q)
Residual(kind, x, g, p) == VNorm(VSub(P(kind, VSub(x, g), p), x))
=============================================================================
