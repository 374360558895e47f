------------------------------ MODULE TraceLine ------------------------------
(* Recorded line searches.  t.prop = "C05": conditions and failure reports;   *)
(* "C06": what is returned describes the returned step.                       *)
EXTENDS TraceLib, LineSearch

Final(s) == <<s.t, s.fref, s.sref>>
AtMax(s) == s.kind = "zoom" /\ DEq(s.t, s.c.max)
Back(s) == s.kind \notin {"zoom", "hager-zhang"}

(* the whole trial sequence of a zoom search *)
RECURSIVE ZRun(_, _, _)
ZRun(s, z, i) ==      \* [z, ok: trial points allowed, n: trials used]
  IF z.done \/ z.failed \/ i > Len(s.trials) THEN [z |-> z, ok |-> TRUE, n |-> i - 1]
  ELSE LET x == s.trials[i]
           near == z.phase = "search" => DClose(T(x), SearchT(s.c, z, s.t0), "1E-9", "1E-13")
           in == z.phase = "zoom" => ZoomTAllowed(z, T(x))
           x2 == IF z.phase = "search" THEN <<SearchT(s.c, z, s.t0), F(x), S(x)>> ELSE x
       IN IF near /\ in THEN ZRun(s, ZNext(s.c, z, x2, "1E-6"), i + 1) ELSE [z |-> z, ok |-> FALSE, n |-> i]
\* comparisons too close to call make a replay meaningless
Ambig(s) == \E i \in 1..Len(s.trials) : LET x == s.trials[i] IN
   \/ ~Finite(x) /\ DIsFin(F(x)) 
   \/ Finite(x) /\ LET tl == DMul("1E-11", Scale(s.c, x)) IN
        \/ \E e \in {DSub(F(x), DAdd(s.c.f0, DMul(DMul(s.c.c1, T(x)), s.c.s0))), S(x),
                     DSub(DAbs(S(x)), DMul(s.c.c2, DAbs(s.c.s0))),
                     DSub(S(x), DMul(DSub(DMul(2, s.c.c1), 1), s.c.s0)),
                     DSub(DSub(F(x), s.c.f0), DMul(s.c.c3, DAbs(s.c.f0)))} : DLe(DAbs(DSub(e, s.c.tol)), tl) \/ DLe(DAbs(e), tl)
        \/ \E j \in 1..(i-1) : DIsFin(F(s.trials[j])) /\ DClose(F(s.trials[j]), F(x), "1E-12", "1E-13")
ZoomReplay(s) ==
  IF s.trials = <<>> \/ Ambig(s) THEN [ok |-> TRUE, same |-> TRUE, count |-> TRUE]
  ELSE LET w == ZRun(s, ZInit(s.c), 1)
           tiny == \E i \in 1..Len(s.trials) : DLt(T(s.trials[i]), "1E-4")
           lastx == s.trials[IF w.n = 0 THEN 1 ELSE w.n]
       IN IF tiny THEN [ok |-> TRUE, same |-> TRUE, count |-> TRUE]
          ELSE [ok |-> w.ok,
                same |-> w.ok => w.z.done = s.done /\ w.z.failed = s.failed /\ DClose(s.t, ZResult(w.z, lastx), "1E-9", "1E-12"),
                count |-> w.ok => Len(s.trials) = s.iter_num + (IF s.failed THEN 1 ELSE 0)]

\* backtracking: number of trials from the step size
BackK(s) == CHOOSE k \in 1..(s.c.maxiter + 1) : k = s.c.maxiter + 1 \/ DClose(s.t, BackT(s.c, s.t0, k), "1E-9", 0)
C05Run(s) ==
  [success_conditions |-> s.done => Nearly(s.kind, s.c, Final(s)) \/ (AtMax(s) /\ Nearly("decrease", s.c, Final(s))),
   \* conditions hold at the returned step: then the search did not fail
   failed_truly |-> s.failed /\ s.smooth => ~Surely(s.kind, s.c, Final(s)),
   ends |-> s.done \/ s.failed,
   not_both |-> s.smooth => ~(s.done /\ s.failed),
   fail_late |-> (s.failed /\ s.smooth /\ s.kind # "zoom") => s.iter_num = s.c.maxiter,
   geometric |-> Back(s) => BackK(s) = s.iter_num]
C06Run(s) ==
  LET ok == VFin(<<s.fref>>) /\ VFin(s.gref)  sc == DAdd(VMaxAbs(s.x), DMul(IF DIsFin(s.t) THEN DAbs(s.t) ELSE "0", VMaxAbs(s.d))) IN
  [params |-> DIsFin(s.t) /\ VClose(s.params, VAxpy(s.t, s.d, s.x), "1E-11", DMul("1E-13", sc)),
   value |-> IF DIsFin(s.fref) THEN DClose(s.value, s.fref, "1E-9", "1E-14") ELSE ~DIsFin(s.value),
   grad |-> VFin(s.gref) => VClose(s.grad, s.gref, "1E-9", DMul("1E-9", VMaxAbs(s.gref))),
   aux |-> VClose(s.aux, s.auxref, "1E-11", "1E-13"),
   stepsize |-> DIsFin(s.t) /\ (DGt(s.t, 0) \/ (s.kind = "zoom" /\ s.failed /\ DEq(s.t, 0) /\ ~s.smooth) \/ (s.kind = "hager-zhang" /\ s.failed /\ DEq(s.t, 0))),
   max_stepsize |-> s.kind # "hager-zhang" => DLe(s.t, DMul(s.c.max, "1.000000000001")),
   iterations |-> 1 <= s.iter_num /\ s.iter_num <= s.c.maxiter,
   structure |-> s.struct]
Script(s) ==
  LET n == Len(s.hist)
      ok == s.hist[n] = "ok" \/ (s.kind = "armijo" /\ s.hist[n] = "decrease-only")
  IN [script_steps |-> s.iter_num = n, script_stepsize |-> DClose(s.t, BackT(s.c, s.t0, n), "1E-12", 0),
      script_done |-> s.done = ok, script_failed |-> s.failed = ~ok]
LineClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF t.prop = "C06" THEN C06Run(s)
  ELSE IF s.op = "script" THEN Script(s)
  ELSE IF s.op = "zoom" THEN C05Run(s) @@ [zoom_points |-> ZoomReplay(s).ok, zoom_result |-> ZoomReplay(s).same, zoom_trials |-> ZoomReplay(s).count]
  ELSE C05Run(s)
=============================================================================
