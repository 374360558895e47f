------------------------------ MODULE TraceStoch ------------------------------
(* Updates of the stochastic solvers.  Step 1 is init_state; every step records *)
(* the batch it received (o), the parameters returned (x) and state fields.     *)
(* t.pre: the pre_update hook scales params by 9/10, the velocity by 1/2 and,    *)
(* for Armijo, the remembered step size by 1/2.                                 *)
EXTENDS TraceLib, Stoch
Sz(v) == DAdd(1, IF VFin(v) THEN VMaxAbs(v) ELSE 0)
Prev(t, i) == t.steps[i-1]
Base(t, i) == IF t.pre THEN VScale("0.9", Prev(t, i).x) ELSE Prev(t, i).x
Vel(t, i) == IF t.pre THEN VScale("0.5", Prev(t, i).vel) ELSE Prev(t, i).vel
Same(a, b) == IF DIsNan(a) THEN DIsNan(b) ELSE a = b \/ DClose(a, b, "1E-9", "1E-10")
Fine(v) == VFin(v) /\ DLe(VMaxAbs(v), "1E+6")
AuxOf(x, o) == VAdd(x, o.c) \o <<DAdd(VSqNorm(x), 1)>>
Common(t, i) ==
  LET s == t.steps[i] IN
  [iter_num |-> s.iter_num = i - 1,
   aux |-> (s.aux # <<>>) => VClose(s.aux, AuxOf(IF i = 1 THEN s.x ELSE Base(t, i), s.o), t.atol, t.atol),
   dtype |-> s.dtype = t.dtype]
Polyak(t, i) ==
  LET s == t.steps[i]  b == Base(t, i)  g == SG(s.o, b)  f == SF(s.o, b)
      st == PolyakStep(t.variant, f, g, t.fmin, t.delta, t.cap)
      v == VSub(VScale(t.mom, Vel(t, i)), VScale(st, g))
      \* a gradient of rounding size makes the ratio meaningless
      clear == DEq(VSqNorm(g), 0) \/ DLe("1E-10", VSqNorm(g))
  IN [stepsize |-> clear => DClose(s.stepsize, st, "1E-8", "1E-10"),
      zero_step |-> DEq(VSqNorm(g), 0) => DEq(s.stepsize, 0),
      finite |-> VFin(s.x),
      params |-> clear => VClose(s.x, VAdd(b, v), "0", DMul("1E-8", DMul(Sz(b), Sz(v)))),
      velocity |-> (clear /\ ~DEq(t.mom, 0)) => VClose(s.vel, v, "0", DMul("1E-8", DMul(Sz(b), Sz(v)))),
      value |-> Same(s.value, f),
      error |-> DClose(s.error, VNorm(g), "1E-9", "1E-10"),
      counts |-> s.nf = i /\ s.ng = i - 1]
Armijo(t, i) ==
  LET s == t.steps[i]  b == Base(t, i)  g == SG(s.o, b)
      p == [c |-> t.c, dec |-> t.dec, inc |-> t.inc, cap |-> t.cap, gold |-> (t.reset = "goldstein"), maxls |-> t.maxls]
      s0 == Reset(t.reset, IF t.pre THEN DMul("0.5", Prev(t, i).stepsize) ELSE Prev(t, i).stepsize, t.inc, t.cap)
      S == Search(s.o, b, g, p, s0, t.maxls)
      z == VAxpy(DNeg(s.stepsize), g, b)
      v == VSub(VAdd(z, VScale(t.mom, Vel(t, i))), b)
  IN [stepsize |-> \E q \in S : DClose(s.stepsize, q, "1E-10", "0"),
      decrease |-> (\E q \in S : DClose(s.stepsize, q, "1E-10", "0") /\ ~TooLong(s.o, b, g, t.c, q)) => DIsFin(s.value),
      params |-> VClose(s.x, VAdd(b, v), "0", DMul("1E-8", DMul(Sz(b), DAdd(Sz(v), DMul(s.stepsize, Sz(g)))))),
      velocity |-> ~DEq(t.mom, 0) => VClose(s.vel, v, "0", DMul("1E-8", DMul(Sz(b), DAdd(Sz(v), DMul(s.stepsize, Sz(g)))))),
      value |-> Same(s.value, SF(s.o, z)),
      error |-> DClose(s.error, VNorm(g), "1E-9", "1E-10")]
\* gradient transformations
G(t, i) == SG(t.steps[i].o, Base(t, i))
RECURSIVE Mom(_, _, _)
Mom(t, i, m) == IF i = 1 THEN VZero(Len(t.steps[1].x)) ELSE VAxpy(m, Mom(t, i - 1, m), G(t, i))
RECURSIVE Ema(_, _, _, _)
Ema(t, i, b, sq) == IF i = 1 THEN VZero(Len(t.steps[1].x))
                    ELSE LET g == G(t, i) IN VAdd(VScale(b, Ema(t, i - 1, b, sq)), VScale(DSub(1, b), IF sq THEN [j \in 1..Len(g) |-> DSq(g[j])] ELSE g))
Delta(t, i) ==
  CASE t.opt = "sgd" -> VScale("-0.1", G(t, i))
    [] t.opt = "momentum" -> VScale("-0.05", Mom(t, i, "0.9"))
    [] t.opt = "schedule" -> VScale(DNeg(DDiv("0.3", i - 1)), G(t, i))
    [] t.opt = "decay" -> VScale("-0.2", VAxpy("0.1", Base(t, i), G(t, i)))
    [] t.opt = "clip" -> LET g == G(t, i) IN VScale("-0.3", [j \in 1..Len(g) |-> DMax("-0.5", DMin("0.5", g[j]))])
    [] t.opt = "adam" ->
         LET m == Ema(t, i, "0.9", FALSE)  v == Ema(t, i, "0.999", TRUE)
             c1 == DSub(1, DPow("0.9", i - 1))  c2 == DSub(1, DPow("0.999", i - 1))
         IN [j \in 1..Len(m) |-> DNeg(DMul("0.1", DDiv(DDiv(m[j], c1), DAdd(DSqrt(DDiv(v[j], c2)), "1E-8"))))]
Optax(t, i) ==
  LET s == t.steps[i]  b == Base(t, i)  g == G(t, i) IN
  [params |-> VClose(s.x, VAdd(b, Delta(t, i)), "0", DMul(t.atol, DMul(Sz(b), Sz(g)))),
   value |-> DClose(s.value, SF(s.o, b), t.atol, t.atol),
   error |-> DClose(s.error, VNorm(g), t.atol, t.atol)]
Iter(t, i) ==
  LET s == t.steps[i] IN
  [drawn |-> s.drawn = Ended(s.L, s.maxiter).drawn /\ s.drawn = s.mdrawn,
   updates |-> s.updates = Ended(s.L, s.maxiter).updates,
   same_params |-> VClose(s.x, s.ref, "1E-11", "1E-11"),
   same_state |-> VClose(s.state, s.refstate, "1E-9", "1E-10"),
   structure |-> s.structure]
StochClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF t.kind = "iter" THEN Iter(t, i)
  ELSE IF i = 1 THEN Common(t, i)
  ELSE Common(t, i) @@ (CASE t.kind = "polyak" -> Polyak(t, i) [] t.kind = "armijo" -> Armijo(t, i) [] t.kind = "optax" -> Optax(t, i))
=============================================================================
