------------------------------- MODULE FnLib -------------------------------
(***************************************************************************)
(* Comparing a recorded function call with a specification function         *)
(* F(kind, x, p): x a vector, p a sequence of vectors, value a vector.      *)
(* Derivatives of F are difference quotients in 45-digit arithmetic.        *)
(***************************************************************************)
EXTENDS Dec

PAxpy(h, dp, p) == IF dp = <<>> THEN p ELSE [i \in 1..Len(p) |-> VAxpy(h, dp[i], p[i])]
Quot(F(_, _, _), k, x, dx, p, dp, h) ==
  VScale(DDiv(1, h), VSub(F(k, VAxpy(h, dx, x), PAxpy(h, dp, p)), F(k, x, p)))
\* central quotient, error O(h^2) = 1e-24
Dir(F(_, _, _), k, x, dx, p, dp) ==
  VScale("5E+11", VSub(F(k, VAxpy("1E-12", dx, x), PAxpy("1E-12", dp, p)), F(k, VAxpy("-1E-12", dx, x), PAxpy("-1E-12", dp, p))))
NoKink(F(_, _, _), k, x, dx, p, dp) ==
  VClose(Quot(F, k, x, dx, p, dp, "1E-7"), Quot(F, k, x, dx, p, dp, "-1E-7"), "1E-3", "1E-4")

FMax(p) == LET G[i \in 0..Len(p)] == IF i = 0 THEN "0" ELSE DMax(G[i-1], IF VFin(p[i]) THEN VMaxAbs(p[i]) ELSE "0") IN G[Len(p)]
Size(s) == DAdd(1, DAdd(VMaxAbs(s.x), FMax(s.p)))

\* a call: value, and where recorded forward (dy) and reverse (gx, gp) derivatives
FnPoint(F(_, _, _), s, rtol, atol) ==
  [value |-> VClose(s.y, F(s.kind, s.x, s.p), rtol, DMul(atol, Size(s)))]
FnDeriv(F(_, _, _), s, tol) ==
  LET sm == NoKink(F, s.kind, s.x, s.dx, s.p, s.dp)
      D == Dir(F, s.kind, s.x, s.dx, s.p, s.dp)
  IN [jvp |-> sm /\ s.dy # <<>> => VClose(s.dy, D, tol, tol),
      vjp |-> sm /\ s.w # <<>> => DClose(VDot(s.w, D), DAdd(VDot(s.gx, s.dx), VDot(s.gp, s.dpf)), tol, tol)]
FnClauses(F(_, _, _), s, rtol, atol, dtol) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF ~s.struct THEN [structure |-> FALSE]
  ELSE IF s.op = "deriv" THEN FnDeriv(F, s, dtol) ELSE FnPoint(F, s, rtol, atol)
=============================================================================
