------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Linear systems and iterative refinement.                                 *)
(*   x_t = x_{t-1} + solve(Abar, r_{t-1}),   r_t = b - A x_t                *)
(***************************************************************************)
EXTENDS Dec
AddRidge(A, c) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN DAdd(A[i][j], c) ELSE A[i][j]]]
Tr(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MMul(A, B) == LET T == Tr(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(T) |-> VDot(A[i], T[j])]]
\* the system a solver is documented to solve
System(kind, A, ridge) == IF kind = "normal_cg" THEN AddRidge(MMul(Tr(A), A), ridge) ELSE AddRidge(A, ridge)
Rhs(kind, A, b) == IF kind = "normal_cg" THEN MTVec(A, b) ELSE b
Residual(A, x, b) == VSub(b, MVec(A, x))
StepTo(x, corr) == VAdd(x, corr)
=============================================================================
