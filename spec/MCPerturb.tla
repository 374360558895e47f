------------------------------ MODULE MCPerturb ------------------------------
(* The estimate of Perturb.tla is unbiased: over the density itself (by the     *)
(* trapezoidal rule, which is exact to many digits for these functions) the     *)
(* mean of (f(x + sigma z) - b) nu'(z) / sigma is the derivative of the mean    *)
(* of f(x + sigma z), for each noise and with either b; the derivative of the   *)
(* maximum is the argmax along every sample; Jvp and Vjp are adjoint.           *)
EXTENDS Perturb, TLC
CONSTANTS Bug, Steps
VARIABLES case, val
vars == <<case, val>>
NegLog(noise, z) ==
  CASE noise = "normal" -> DMul("0.5", DSq(z))
    [] noise = "gumbel" -> DAdd(z, DExp(DNeg(z)))
    [] noise = "logistic" -> DAdd(z, DMul("2", DLog(DAdd("1", DExp(DNeg(z))))))
Range(noise) == CASE noise = "normal" -> <<"-9", "9">> [] noise = "gumbel" -> <<"-4", "40">> [] noise = "logistic" -> <<"-40", "40">>
Fs == {"sumsq", "cube", "exp"}
Smooth == {[kind |-> "smooth", noise |-> q, f |-> f, x |-> x, sigma |-> s] : q \in {"normal", "gumbel", "logistic"}, f \in Fs, x \in {"-0.7", "0.4"}, s \in {"0.25", "1"}}
Ys == {"-1", "0.1", "0.8"}
Path == {[kind |-> "path", f |-> f, x |-> <<a, b, c>>, t |-> t] : f \in {"onehot", "rank", "top2", "sign"}, a \in Ys, b \in {"0", "-0.4"}, c \in {"0.5", "-0.8"}, t \in {<<"1", "-0.5", "0.3">>}}
Adjoint == {[kind |-> "adjoint", f |-> f, noise |-> q, x |-> <<a, "0.3">>, t |-> <<"1", "-2">>] : f \in {"onehot", "relu", "pair"}, q \in {"normal", "gumbel", "logistic", "student"}, a \in Ys}
\* -------------------------------------------------------------- quadrature
Grid(noise) == LET r == Range(noise) h == DDiv(DSub(r[2], r[1]), Steps) IN [k \in 1..(Steps + 1) |-> DAdd(r[1], DMul(h, k - 1))]
Weights(noise) == [k \in 1..(Steps + 1) |-> DExp(DNeg(NegLog(noise, Grid(noise)[k])))]
Table == [q \in {"normal", "gumbel", "logistic"} |-> LET g == Grid(q) w == [k \in 1..(Steps + 1) |-> DExp(DNeg(NegLog(q, g[k])))] IN
            [z |-> g, w |-> VScale(DDiv("1", VSum(w)), w), s |-> [k \in 1..(Steps + 1) |-> Score(q, g[k])]]]
At(f, x) == F(f, <<x>>)[1]
MeanOf(T, c, x) == VSum([k \in 1..(Steps + 1) |-> DMul(T.w[k], At(c.f, DAdd(x, DMul(c.sigma, T.z[k]))))])
Est(T, c, b) == DDiv(VSum([k \in 1..(Steps + 1) |-> DMul(T.w[k], DMul(DSub(At(c.f, DAdd(c.x, DMul(c.sigma, T.z[k]))), b), T.s[k]))]), IF Bug THEN "1" ELSE c.sigma)
eps == "1E-6"
Best(f, x) == VDot(x, F(f, x))
Judge(c) ==
  CASE c.kind = "smooth" ->
         LET T == Table[c.noise]
             d == DDiv(DSub(MeanOf(T, c, DAdd(c.x, eps)), MeanOf(T, c, DSub(c.x, eps))), DMul("2", eps))
         IN DClose(Est(T, c, "0"), d, "1E-6", "1E-6") /\ DClose(Est(T, c, At(c.f, c.x)), d, "1E-6", "1E-6")
    [] c.kind = "path" ->
         LET d == DDiv(DSub(Best(c.f, VAxpy(eps, c.t, c.x)), Best(c.f, VAxpy(DNeg(eps), c.t, c.x))), DMul("2", eps))
         IN (\A i \in 1..3 : ~DEq(c.x[i], "0") \/ c.f # "sign") => DClose(VDot(F(c.f, c.x), c.t), d, "1E-9", "1E-9")
    [] c.kind = "adjoint" ->
         LET z == <<<<"0.3", "-1">>, <<"2", "0.1">>, <<"-0.6", "0.9">>>>
             y == Outs(c.f, c.x, "0.5", z)
             b == F(c.f, c.x)
             s == Scores(c.noise, z)
             u == VScale("0.7", VAdd(b, [i \in 1..Len(b) |-> "1"]))
         IN DClose(VDot(u, Jvp(y, b, s, "0.5", c.t)), VDot(c.t, Vjp(y, b, s, "0.5", u)), "1E-30", "1E-30")
Init == case \in Smooth \cup Path \cup Adjoint /\ val = "none"
Next == val = "none" /\ val' = (IF Judge(case) THEN "right" ELSE "wrong") /\ UNCHANGED case
Unbiased == val # "wrong"
=============================================================================
