------------------------------- MODULE MCProx -------------------------------
EXTENDS Prox, TLC
G == {"-3", "-2", "-1.25", "-1", "-0.5", "-0.25", "0", "0.25", "0.5", "0.75", "1", "1.5", "2", "3"}
Sca == {"0", "0.5", "1", "2"}
P2 == {<<"lasso", <<<<"1", "0.5">>>>>>, <<"lasso", <<<<"0", "2">>>>>>, <<"nn_lasso", <<<<"1", "0">>>>>>, <<"none", <<>>>>,
       <<"enet", <<<<"1", "0.5">>, <<"0", "2">>>>>>, <<"group", <<<<"1">>>>>>, <<"group", <<<<"0">>>>>>, <<"ridge", <<<<"2">>>>>>, <<"nn_ridge", <<<<"0.5">>>>>>}
VARIABLES x, c, s
Init == x \in [1..2 -> {"-3", "-1", "-0.5", "0", "0.25", "1", "2"}] /\ c \in P2 /\ s \in Sca
Next == UNCHANGED <<x, c, s>>
Best ==
  LET p == Append(c[2], <<s>>)  y == Prox(c[1], x, p) IN
  /\ Feasible(c[1], y)
  /\ \A z \in [1..2 -> G] : Feasible(c[1], z) => DLe(Objective(c[1], x, y, p), DAdd(Objective(c[1], x, z, p), "1E-30"))
=============================================================================
