---------------------------- MODULE TracePerturb ----------------------------
(* Recorded values and derivatives of perturbed functions, with the samples the  *)
(* noise object handed out, against Perturb.tla; and draws of the library's noise *)
(* against their densities.                                                      *)
EXTENDS TraceLib
P == INSTANCE Perturb
Close(u, w, s) == Len(u) = Len(w) /\ VClose(u, w, s.tol, s.tol)
PerturbClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF s.kind = "draws" THEN
    \* mean, variance and median of many draws within five standard errors
    [mean |-> DLe(DAbs(DSub(s.mean, s.want_mean)), DMul("5", DSqrt(DDiv(s.want_var, s.count)))),
     variance |-> DLe(DAbs(DSub(s.var, s.want_var)), DMul("5", DMul(s.want_var, DSqrt(DDiv(s.kurt, s.count))))),
     below |-> DLe(DAbs(DSub(s.below, "0.5")), DDiv("2.5", DSqrt(s.count))),
     shape |-> s.shape,
     density |-> \A k \in 1..Len(s.score) : DClose(DNeg(s.dlog[k]), P!Score(s.noise, s.score[k]), "1E-9", "1E-9"),
     again |-> s.again]
  ELSE
  LET y == P!Outs(s.f, s.x, s.sigma, s.z)
      b0 == P!F(s.f, s.x)
      b == IF s.cv THEN b0 ELSE [k \in 1..Len(b0) |-> "0"]
      sc == P!Scores(s.noise, s.z)
      many == Len(s.z) = s.samples /\ \A k \in 1..Len(s.z) : Len(s.z[k]) = Len(s.x)
      max == s.kind = "max"
      want == IF ~many THEN <<>> ELSE IF max THEN <<P!Max(s.f, s.x, s.sigma, s.z, y)>> ELSE P!Avg(y)
      jvp == IF ~many THEN <<>> ELSE IF max THEN <<VDot(P!Avg(y), s.t)>> ELSE P!Jvp(y, b, sc, s.sigma, s.t)
      vjp == IF ~many THEN <<>> ELSE IF max THEN VScale(s.u[1], P!Avg(y)) ELSE P!Vjp(y, b, sc, s.sigma, s.u)
  IN [samples |-> many,
      value |-> Close(s.value, want, s),
      jvp_value |-> Close(s.jvp_value, want, s),
      jvp |-> Close(s.jvp, jvp, s),
      vjp |-> Close(s.vjp, vjp, s),
      same_samples |-> s.same_samples,
      jit |-> Close(s.jit_value, want, s) /\ Close(s.jit_jvp, jvp, s),
      batched |-> s.batched,
      shapes |-> s.shapes]
=============================================================================
