------------------------------ MODULE MCImplicit -----------------------------
(* The formulas, on a grid of roots (c is chosen so that x is one):            *)
(*  - the two products are adjoint: <v, dx> = <gradients, dtheta>, exactly;    *)
(*  - moving along the tangent keeps the root up to second order:              *)
(*    |F(x + h dx, theta + h dtheta)| <= C h^2.                                *)
EXTENDS Implicit, TLC
CONSTANTS Bug
VARIABLES r, d, v
vars == <<r, d, v>>
G == {"-1", "0", "0.5"}
Vs == {<<"1", "0">>, <<"-2", "1">>}
Qs == {<<<<"3", "1">>, <<"-1", "4">>>>, <<<<"2", "0.5">>, <<"1", "3">>>>}
Rs == {LET q == [Q |-> Q, a |-> a, b |-> b, c |-> <<"0", "0">>, x |-> x] IN [q EXCEPT !.c = Fx(q)] :
        Q \in Qs, a \in {<<"0", "1">>, <<"0.5", "0.5">>}, b \in {"0", "1"}, x \in [1..2 -> G]}
Ds == {[Q |-> Q, a |-> a, b |-> b, c |-> c] : Q \in {<<<<"0", "0">>, <<"0", "0">>>>, <<<<"0", "1">>, <<"2", "0">>>>},
        a \in {<<"0", "0">>, <<"1", "-1">>}, b \in {"0", "1"}, c \in {<<"1", "0">>, <<"0", "-1">>}}
Init == r \in Rs /\ d \in Ds /\ v \in Vs
Next == FALSE /\ UNCHANGED vars
u == IF Bug THEN MSolve(Jac(r), VScale("-1", v)) ELSE Adjoint(r, v)
dx == Tangent(r, d)
IsAdjoint == u # <<>> => DClose(VDot(v, dx), Pair(Cot(r, u), d), "1E-25", "1E-25")
Mat(h) == [i \in 1..2 |-> VAxpy(h, d.Q[i], r.Q[i])]
At(h) == [Q |-> Mat(h), a |-> VAxpy(h, d.a, r.a), b |-> DAdd(r.b, DMul(h, d.b)), c |-> VAxpy(h, d.c, r.c), x |-> VAxpy(h, dx, r.x)]
FirstOrder == u # <<>> => \A h \in {"0.001", "-0.0001"} : DLe(VMaxAbs(Fx(At(h))), DMul("60", DSq(h)))
NonSing == u # <<>>
=============================================================================
