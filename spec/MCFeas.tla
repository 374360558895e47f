-------------------------------- MODULE MCFeas --------------------------------
(* Every schedule of moves, with adversarial gradients and step sizes, over    *)
(* several sets: no move leaves the set, and a point without residual is a     *)
(* point without feasible descent direction (and conversely).                  *)
EXTENDS Feas, TLC
CONSTANTS K, Over
VARIABLES c, x, n
vars == <<c, x, n>>
Cases == { <<"non_negative", <<>>>>, <<"box", <<<<"-1", "0">>, <<"0.5", "0">>>>>>, <<"box", <<<<"-inf", "0">>, <<"1", "inf">>>>>>,
           <<"box", <<<<"-1", "-1">>, <<"1", "2">>>>>>,
           <<"simplex", <<<<"1">>>>>>, <<"l1_ball", <<<<"1.5">>>>>>, <<"l2_ball", <<<<"1">>>>>>, <<"linf_ball", <<<<"1">>>>>>,
           <<"hyperplane", <<<<"1", "2">>, <<"1">>>>>>, <<"halfspace", <<<<"1", "-2">>, <<"-1">>>>>>, <<"affine_set", <<<<"1.5">>, <<"1", "-1">>>>>> }
Grads == {<<"0", "0">>, <<"1", "-2">>, <<"-3", "0.5">>, <<"100", "100">>, <<"-0.5", "-0.5">>}
Steps == {"0", "0.25", "1", "30"}
Start == <<"0.5", "0.5">>
Init == c \in Cases /\ x = P(c[1], Start, c[2]) /\ n = 0
IsBox == c[1] = "box"
Fracs == {"0", "0.5", "1"} \union (IF Over THEN {"1.5"} ELSE {})
Gradient == \E g \in Grads, s \in Steps : x' = Project(c[1], VAxpy(DNeg(s), g, x), c[2])
Along == IsBox /\ \E g \in Grads, s \in Steps, f \in Fracs :
           LET z == Project("box", VAxpy(DNeg(s), g, x), c[2])
           IN x' = Segment(x, z, IF f = "1.5" THEN f ELSE DMul(f, DMin("4", LongestStep(x, VSub(z, x), c[2][1], c[2][2]))))
Coordinate == IsBox /\ \E i \in 1..2, v \in {"-7", "0.25", "9"} : x' = [x EXCEPT ![i] = Clip(v, c[2][1][i], c[2][2][i])]
Mirror == c[1] = "simplex" /\ (\A i \in 1..2 : DLt(0, x[i])) /\ \E w \in {<<"1", "2">>, <<"0.001", "1000">>} : x' = Multiply(x, w)
Next == n < K /\ n' = n + 1 /\ UNCHANGED c /\ (Gradient \/ Along \/ Coordinate \/ Mirror)
Inside == In(c[1], x, c[2], "1E-25")
Pts == {y \in [1..2 -> {"-2", "-1", "-0.5", "0", "0.5", "1", "2"}] : In(c[1], y, c[2], "1E-30")} \union {P(c[1], VSub(x, g), c[2]) : g \in Grads}
Stationary == \A g \in Grads :
  LET r == Residual(c[1], x, g, c[2]) IN
  /\ DLe(r, "1E-20") => \A y \in Pts : DLe("-1E-15", VDot(g, VSub(y, x)))
  /\ DLt("1E-10", r) => \E y \in Pts : DLt(VDot(g, VSub(y, x)), 0)
=============================================================================
