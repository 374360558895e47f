------------------------------- MODULE TraceMix -------------------------------
(* One update per step.  Every step records the parameters returned (x), the   *)
(* point the map was applied to (p: the entry of the history that was not      *)
(* there before), and the recorded history and Gram matrix.                    *)
(*   t.kind: "map"   T(x) = Q x - c + q x^3                                    *)
(*           "pg"    a proximal-gradient step of size t.s (inner solver)       *)
(*           "fista" the accelerated one, restarted at every mixed point       *)
EXTENDS TraceLib, FirstOrder
Mx == INSTANCE Mix
Sz(v) == DAdd(1, IF VFin(v) THEN VMaxAbs(v) ELSE 0)
\* updates made by the inner solver since its last start, at step i (step 1 is init)
RECURSIVE Since(_, _)
Since(t, i) == IF i <= 2 \/ Mx!Mixes(i - 2, t.m, t.f) THEN 0 ELSE Since(t, i - 1) + 1
RECURSIVE TOf(_)
TOf(k) == IF k = 0 THEN "1" ELSE NextT(TOf(k - 1))
\* the point the inner accelerated step really moves from
Lookahead(t, i) == LET k == Since(t, i) IN
  IF k = 0 THEN t.steps[i].p
  ELSE Extrapolate(t.steps[i-1].p, t.steps[i].p, TOf(k - 1))
Image(t, i) ==
  LET p == t.steps[i].p IN
  CASE t.kind = "map" -> DF(t.o, p)
    [] t.kind = "pg" -> StepFrom(t.o, p, t.s)
    [] t.kind = "fista" -> StepFrom(t.o, Lookahead(t, i), t.s)
\* what was applied so far, from the record
Done(t, i) == [k \in 1..(i-1) |-> [x |-> t.steps[k+1].p, r |-> VSub(t.steps[k+1].x, t.steps[k+1].p)]]
\* rounding is amplified when the residuals are nearly dependent and large against the ridge
RTrace(G) == LET S[k \in 0..Len(G)] == IF k = 0 THEN "0" ELSE DAdd(S[k-1], G[k][k]) IN S[Len(G)]
Amplify(G, ridge) == DAdd(1, DDiv(RTrace(G), ridge))
HasRow(rows, v, tol) == \E k \in 1..Len(rows) : VClose(rows[k], v, "0", tol)
MixClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF i = 1 THEN [iter_num |-> s.iter_num = 0, size |-> Len(s.hx) = t.m /\ Len(s.hr) = t.m]
  ELSE
  LET n == i - 2
      mixes == Mx!Mixes(n, t.m, t.f)
      before == Mx!Recent(Done(t, i - 1), t.m)
      now == Mx!Recent(Done(t, i), t.m)
      G == IF mixes THEN Mx!Gram(before) ELSE <<>>
      want == IF mixes THEN Mx!Mixed(before, t.ridge, t.beta) ELSE t.steps[i-1].x
      tol == IF mixes THEN DMul(DMul("1E-13", Amplify(G, t.ridge)), Sz(s.p)) ELSE "0"
      r == VSub(s.x, s.p)
      eps == DMul("1E-11", DAdd(Sz(s.p), Sz(s.x)))
  IN [point |-> DLt(DMul("1E-3", Sz(s.p)), tol) \/ (IF want = <<>> THEN ~VFin(s.p) ELSE VClose(s.p, want, "1E-9", tol)),
      image |-> VClose(s.x, Image(t, i), "1E-9", DMul("1E-10", Sz(s.p))),
      history_x |-> Len(s.hx) = t.m /\ \A k \in 1..Len(now) : HasRow(s.hx, now[k].x, eps),
      history_pairs |-> Len(s.hr) = t.m /\ \A k \in 1..Len(now) : \E j \in 1..t.m : VClose(s.hx[j], now[k].x, "0", eps) /\ VClose(s.hr[j], now[k].r, "0", eps),
      history_only |-> Len(now) = t.m => \A j \in 1..t.m : \E k \in 1..t.m : VClose(s.hx[j], now[k].x, "0", eps) /\ VClose(s.hr[j], now[k].r, "0", eps),
      gram |-> Len(now) = t.m => \A j, k \in 1..t.m : DClose(s.gram[j][k], VDot(s.hr[j], s.hr[k]), "1E-9", "1E-24"),
      error |-> IF t.kind = "map" THEN DClose(s.error, VNorm(r), "1E-7", DMul("1E-13", Sz(s.p))) ELSE DEq(s.error, s.inner_error),
      iter_num |-> s.iter_num = i - 1,
      evaluations |-> t.kind = "map" => s.nfev = i,
      aux |-> s.aux # <<>> => VClose(s.aux, VAdd(s.p, [k \in 1..Len(s.p) |-> "1"]), "1E-9", "1E-9")]
=============================================================================
