----------------------------- MODULE LineSearch -----------------------------
(***************************************************************************)
(* Line searches.  A trial is <<t, f, s>>: step size, value and slope of    *)
(* the objective along the direction.  c: record of constants               *)
(*   [c1, c2, c3, tol, factor (decrease or increase), max, maxiter, f0, s0] *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences

T(x) == x[1]
F(x) == x[2]
S(x) == x[3]
Finite(x) == DIsFin(F(x)) /\ DIsFin(S(x))

(* How far a trial is from satisfying a condition; "inf" if undefined.      *)
Err(a) == IF DIsNan(a) THEN "inf" ELSE DMax(a, "0")
ArmijoErr(c, x) == Err(DSub(F(x), DAdd(c.f0, DMul(DMul(c.c1, T(x)), c.s0))))
GoldErr(c, x) == Err(DSub(DAdd(c.f0, DMul(DMul(DSub(1, c.c1), T(x)), c.s0)), F(x)))
WolfeErr(c, x) == Err(DSub(DMul(c.c2, c.s0), S(x)))
StrongErr(c, x) == Err(DSub(DAbs(S(x)), DMul(c.c2, DAbs(c.s0))))
\* decrease up to rounding near a minimum: slope still mostly down, value within c3 |f0|
ApproxErr(c, x) == Err(DMax(DSub(S(x), DMul(DSub(DMul(2, c.c1), 1), c.s0)), DSub(DSub(F(x), c.f0), DMul(c.c3, DAbs(c.f0)))))
DecreaseErr(c, x) == IF DIsNan(F(x)) \/ DIsNan(S(x)) THEN "inf" ELSE DMin(ArmijoErr(c, x), ApproxErr(c, x))
CondErr(kind, c, x) ==
  CASE kind = "decrease" -> DecreaseErr(c, x)
    [] kind = "armijo" -> ArmijoErr(c, x)
    [] kind = "goldstein" -> DMax(ArmijoErr(c, x), GoldErr(c, x))
    [] kind = "wolfe" -> DMax(ArmijoErr(c, x), WolfeErr(c, x))
    [] kind = "strong-wolfe" -> DMax(ArmijoErr(c, x), StrongErr(c, x))
    [] kind = "zoom" -> DMax(DecreaseErr(c, x), StrongErr(c, x))
    [] kind = "hager-zhang" -> IF DIsNan(F(x)) \/ DIsNan(S(x)) THEN "inf" ELSE DMin(DMax(ArmijoErr(c, x), WolfeErr(c, x)), DMax(ApproxErr(c, x), WolfeErr(c, x)))
Satisfied(kind, c, x) == DLe(CondErr(kind, c, x), c.tol)
Scale(c, x) == DAdd(DAbs(c.f0), DAdd(IF DIsFin(F(x)) THEN DAbs(F(x)) ELSE "0", DAdd(DAbs(c.s0), IF DIsFin(S(x)) THEN DAbs(S(x)) ELSE "0")))
\* satisfied / violated beyond rounding
Surely(kind, c, x) == DLe(CondErr(kind, c, x), DSub(c.tol, DMul("1E-12", Scale(c, x))))
Nearly(kind, c, x) == DLe(CondErr(kind, c, x), DAdd(c.tol, DMul("1E-12", Scale(c, x))))

(* ------------------------------ backtracking ---------------------------- *)
First(c, t0) == DMin(c.max, t0)
RECURSIVE BackT(_, _, _)
BackT(c, t0, k) == IF k = 1 THEN First(c, t0) ELSE DMul(BackT(c, t0, k - 1), c.factor)
\* number of trials made given the trials' outcomes
BackStop(oks, maxiter) == LET H == {i \in 1..Len(oks) : oks[i]} IN
  IF H # {} /\ (CHOOSE i \in H : \A j \in H : i <= j) <= maxiter THEN CHOOSE i \in H : \A j \in H : i <= j ELSE maxiter

(* ------------------------------ zoom ------------------------------------ *)
(* State: phase "search" until an interval is bracketed, then "zoom"; prev,  *)
(* low, high: trials; safe: largest step with sufficient decrease (0: none). *)
Zero(c) == <<"0", c.f0, c.s0>>
ZInit(c) == [phase |-> "search", k |-> 0, prev |-> Zero(c), low |-> Zero(c), high |-> Zero(c), safe |-> "0",
             done |-> FALSE, failed |-> FALSE, outside |-> FALSE, atmax |-> FALSE]
SearchT(c, z, t0) == DMin(IF z.k = 0 THEN t0 ELSE DMul(c.factor, T(z.prev)), c.max)
\* a zoom trial keeps away from the interval's ends
ZoomTAllowed(z, t) ==
  LET l == DMin(T(z.low), T(z.high))  r == DMax(T(z.low), T(z.high))  d == DMul("0.0999999", DSub(r, l)) IN
  DIsFin(t) /\ DLe(DAdd(l, d), t) /\ DLe(t, DSub(r, d))
SearchNext(c, z, x) ==
  LET dec == DecreaseErr(c, x)
      err == DMax(dec, StrongErr(c, x))
      toHigh == DGt(dec, 0) \/ (DGe(F(x), F(z.prev)) /\ z.k > 0)
      toLow == DGe(S(x), 0) /\ ~toHigh
      found == toHigh \/ toLow \/ DLe(err, c.tol)
      top == DGe(T(x), c.max)
      done == DLe(err, c.tol) \/ (top /\ ~found)
  IN [z EXCEPT !.k = @ + 1, !.phase = IF found THEN "zoom" ELSE "search", !.prev = x,
               !.low = IF toLow THEN x ELSE z.prev, !.high = IF toLow THEN z.prev ELSE x,
               !.safe = IF DLe(dec, c.tol) THEN T(x) ELSE @, !.done = done, !.atmax = top /\ ~found,
               !.failed = ~done /\ z.k + 1 >= c.maxiter, !.outside = dec = "inf"]
ZoomNext(c, z, x, threshold) ==
  LET dec == DecreaseErr(c, x)
      err == DMax(dec, StrongErr(c, x))
      done == DLe(err, c.tol)
      small == DLe(DAbs(DSub(T(z.high), T(z.low))), threshold)
      toHigh == DGt(dec, 0) \/ DGe(F(x), F(z.low))
      swap == ~toHigh /\ DGe(DMul(S(x), DSub(T(z.high), T(z.low))), 0)
      safe == DMax(z.safe, IF DLe(dec, c.tol) THEN T(x) ELSE z.safe)
  IN [z EXCEPT !.k = @ + 1, !.low = IF toHigh THEN @ ELSE x,
               !.high = IF toHigh THEN x ELSE IF swap THEN z.low ELSE @,
               !.safe = safe, !.done = done,
               !.failed = ~done /\ (z.k + 1 >= c.maxiter \/ (small /\ DGt(safe, 0))), !.outside = dec = "inf"]
ZNext(c, z, x, threshold) == IF z.phase = "search" THEN SearchNext(c, z, x) ELSE ZoomNext(c, z, x, threshold)
\* the step a finished search returns
ZResult(z, x) == IF z.done THEN T(x) ELSE IF DGt(z.safe, 0) \/ z.outside THEN z.safe ELSE T(x)
=============================================================================
