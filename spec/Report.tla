------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* What a solver reports.  A deterministic solver with cached quantities     *)
(* moves through points; the environment (line search, step rule) decides    *)
(* which point is returned.  Whatever it decides, the cached value, gradient *)
(* and auxiliary output must be those of the returned point and the error    *)
(* the optimality measure of that point, so that stopping on error <= tol    *)
(* certifies the returned point.                                             *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences
Qn == INSTANCE Quasi
\* optimality measures
GradNorm(g) == VNorm(g)
ProjGradInf(x, g, l, u) == VMaxAbs(Qn!ProjGrad(x, g, l, u))
Measure(kind, x, g, l, u) == IF kind = "box" THEN ProjGradInf(x, g, l, u) ELSE GradNorm(g)
=============================================================================
