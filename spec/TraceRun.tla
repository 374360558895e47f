------------------------------ MODULE TraceRun ------------------------------
(* Traces of real runs against RunLoop (property C01).                      *)
(*  kind "script": a run of a solver whose errors follow a TLC behaviour    *)
(*  kind "chain" : a real solver; errs/fails/states were recorded by        *)
(*                 calling init_state and update by hand, then run was      *)
(*                 called with other maxiter/tol and must land on the chain *)
EXTENDS TraceLib
R == INSTANCE RunLoop WITH MaxMaxiter <- 0, ErrClasses <- {}, Tol <- "0",
       maxiter <- 0, stopls <- FALSE, phase <- "", k <- 0, err <- "", fail <- FALSE, es <- <<>>, fs <- <<>>

ScriptClauses(t, s) ==
  [no_exception |-> s.exc = "",
   iter_num |-> s.exc = "" => s.iter_num = R!StopIndex(t.errs, t.fails, t.tol, t.stopls, t.maxiter),
   update_calls |-> s.exc = "" /\ s.calls >= 0 => (IF t.maxiter = 0 THEN s.calls <= 1 ELSE s.calls = s.iter_num),
   params |-> s.exc = "" => DEq(s.param, s.iter_num),
   error |-> s.exc = "" => (IF s.iter_num = 0 THEN s.error = "inf"
                            ELSE s.iter_num <= Len(t.errs) /\ DClose(s.error, t.errs[s.iter_num], 0, 0))]

\* errors too close to the tolerance for a recompiled run to be decided alike
Fuzzy(e, tol) == DIsFin(e) /\ DClose(e, tol, "1E-6", "1E-13")
\* the errors the stopping rule looks at; Levenberg-Marquardt's documented
\* "madsen-nielsen" rule stops on a small gradient or a small update
Errs(t) ==
  IF t.crit = "error" THEN t.errs
  ELSE [i \in 1..Len(t.errs) |->
          IF DGt(t.ginf[i], t.gtol) /\ DGt(t.dnorm[i], DMul(t.xtol, DAdd(t.pnorm[i], t.xtol)))
          THEN "inf" ELSE "0"]
Allowed(t, s) ==
  LET e == Errs(t)
      x == [i \in 1..Len(e) |-> IF Fuzzy(e[i], s.tol) THEN "inf" ELSE e[i]]
      lo == R!StopIndex(e, t.fails, s.tol, s.stopls, s.maxiter)
      hi == R!StopIndex(x, t.fails, s.tol, s.stopls, s.maxiter)
  IN {lo, hi} \union {i \in 1..Len(e) : i <= hi /\ i <= s.maxiter /\ Fuzzy(e[i], s.tol)}
ChainClauses(t, s) ==
  LET ok == s.exc = ""
      n == s.iter_num - t.iter0
      inr == ok /\ n >= 0 /\ n <= Len(t.errs)
  IN [no_exception |-> ok,
      stop_index |-> ok => n \in Allowed(t, s),
      bounded |-> ok => n <= s.maxiter,
      params |-> inr => VClose(s.params, t.params[n + 1], t.rtol, t.atol),
      \* once converged, a state holds quotients of rounding errors
      state |-> inr /\ (\A j \in 1..n : j <= Len(t.errs) => ~DLt(t.errs[j], "1E-6")) => VClose(s.state, t.states[n + 1], t.rtol, t.atol),
      structure |-> ok => s.structure = t.structure]

RunClauses(t, i) == IF t.kind = "script" THEN ScriptClauses(t, t.steps[i]) ELSE ChainClauses(t, t.steps[i])
=============================================================================
