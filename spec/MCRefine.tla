------------------------------ MODULE MCRefine ------------------------------
(* Refinement on 2x2 systems over a grid of matrices with an inaccurate      *)
(* inner matrix: r stays b - A x, the error obeys r' = (I - A Abar^-1) r, and *)
(* the residual norm shrinks by the contraction factor whenever it is < 1.    *)
(* A solver that forgets the residual of a warm start (Bug) does not.         *)
EXTENDS Refine, Naturals, TLC
CONSTANT Bug, T
VARIABLES A, D, b, x, r, t
As == {<<<<"2", "1">>, <<"0", "1">>>>, <<<<"4", "-1">>, <<"1", "3">>>>, <<<<"1", "0.5">>, <<"0.5", "2">>>>, <<<<"0.1", "0">>, <<"0", "10">>>>}
Ds == {<<<<"0", "0">>, <<"0", "0">>>>, <<<<"0.1", "0">>, <<"0", "-0.1">>>>, <<<<"0.05", "0.02">>, <<"-0.05", "0">>>>}
Bs == {<<"1", "2">>, <<"-1", "0">>, <<"0", "0">>}
Abar == <<VAdd(A[1], D[1]), VAdd(A[2], D[2])>>
Init == /\ A \in As /\ D \in Ds /\ b \in Bs /\ x \in {<<"0", "0">>, <<"3", "-1">>}
        /\ r = (IF Bug THEN b ELSE Residual(A, x, b)) /\ t = 0
Next == /\ t < T /\ x' = StepTo(x, MSolve(Abar, r)) /\ r' = Residual(A, x', b) /\ t' = t + 1 /\ UNCHANGED <<A, D, b>>
IsResidual == VClose(r, Residual(A, x, b), "1E-30", "1E-30")
\* contraction matrix C = I - A Abar^-1, by columns
Col(j) == LET e == IF j = 1 THEN <<"1", "0">> ELSE <<"0", "1">> IN VSub(e, MVec(A, MSolve(Abar, e)))
Frob == DSqrt(DAdd(VSqNorm(Col(1)), VSqNorm(Col(2))))
Contracts == [][DLe(VNorm(r'), DAdd(DMul(Frob, VNorm(r)), "1E-35"))]_<<A, D, b, x, r, t>>
Exact == (t >= 1 /\ D = CHOOSE d \in Ds : \A i, j \in 1..2 : DEq(d[i][j], 0)) => DLe(VNorm(r), "1E-35")
Converges == (t = T /\ DLt(Frob, "0.5")) => DLe(VNorm(r), "1E-2")
=============================================================================
