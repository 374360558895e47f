------------------------------- MODULE Perturb -------------------------------
(***************************************************************************)
(* Differentiation by perturbation.  A perturbed function at x is the mean  *)
(* of y_n = f(x + sigma z_n) over the samples z_1 .. z_N; with samples of   *)
(* density exp(-nu) its derivative along t is estimated from the same       *)
(* samples by   sum_n (y_n - b) <nu'(z_n), t> / (N sigma),   b = 0 or, as a  *)
(* control variate, f(x).  For a maximum  max_y <x, y>  with argmax f the   *)
(* mean is of <x + sigma z_n, y_n> and its derivative is the mean of y_n.   *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences, FiniteSets
\* functions, on flattened inputs and outputs
Below(x, i) == Cardinality({j \in 1..Len(x) : DLt(x[j], x[i])})
Above(x, i) == Cardinality({j \in 1..Len(x) : DGt(x[j], x[i])})
F(f, x) ==
  LET n == Len(x)
      on == [i \in 1..n |-> Above(x, i)]
  IN CASE f = "onehot" -> [i \in 1..n |-> IF on[i] = 0 THEN "1" ELSE "0"]
       [] f = "rank" -> [i \in 1..n |-> DMul(Below(x, i), "1")]
       [] f = "top2" -> [i \in 1..n |-> IF on[i] < 2 THEN "1" ELSE "0"]
       [] f = "sign" -> [i \in 1..n |-> DSign(x[i])]
       [] f = "relu" -> [i \in 1..n |-> DMax("0", x[i])]
       [] f = "sumsq" -> <<VSqNorm(x)>>
       [] f = "cube" -> [i \in 1..n |-> DMul(x[i], DSq(x[i]))]
       [] f = "pair" -> <<DMul(x[1], x[n]), DAdd(x[n], "3")>>
       [] f = "six" -> [i \in 1..6 |-> DAdd(DMul(i, x[1]), DMul(x[1], x[n]))]
       [] f = "exp" -> [i \in 1..n |-> DExp(DMul("0.5", x[i]))]
\* nu'
Score(noise, z) ==
  CASE noise = "normal" -> z
    [] noise = "gumbel" -> DSub("1", DExp(DNeg(z)))
    [] noise = "logistic" -> LET e == DExp(DNeg(z)) IN DDiv(DSub("1", e), DAdd("1", e))
    [] noise = "student" -> DDiv(DMul("3", z), DAdd("1", DSq(z)))
Outs(f, x, sigma, z) == [k \in 1..Len(z) |-> F(f, VAxpy(sigma, z[k], x))]
Avg(w) == LET S[i \in 1..Len(w)] == IF i = 1 THEN w[1] ELSE VAdd(S[i-1], w[i]) IN VScale(DDiv("1", Len(w)), S[Len(w)])
Max(f, x, sigma, z, y) == DDiv(VSum([k \in 1..Len(z) |-> VDot(VAxpy(sigma, z[k], x), y[k])]), Len(z))
Scores(noise, z) == [k \in 1..Len(z) |-> [i \in 1..Len(z[k]) |-> Score(noise, z[k][i])]]
Jvp(y, b, s, sigma, t) == VScale(DDiv("1", sigma), Avg([k \in 1..Len(y) |-> VScale(VDot(s[k], t), VSub(y[k], b))]))
Vjp(y, b, s, sigma, u) == VScale(DDiv("1", sigma), Avg([k \in 1..Len(y) |-> VScale(VDot(VSub(y[k], b), u), s[k])]))
=============================================================================
