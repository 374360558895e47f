----------------------------- MODULE TraceBisect -----------------------------
(* Steps:                                                                     *)
(*  "init"   bracket given, function values at its ends; was it accepted?     *)
(*  "update" one update: the bracket before, the value at the returned point  *)
(*  "run"    a whole run against the sequence of its updates                  *)
EXTENDS TraceLib
B == INSTANCE Bisect WITH K <- 0, dir <- 0, low <- 0, high <- 0, k <- 0, visited <- <<>>

Sgn(a) == DSign(a)
InitClauses(s) ==
  LET a == Sgn(s.flow)  b == Sgn(s.fhigh)
      ok == a * b < 0
      bad == a * b > 0 \/ DIsNan(s.flow) \/ DIsNan(s.fhigh)
  IN IF ~s.check THEN [no_exception |-> s.exc = "",
                       sign |-> ok /\ s.exc = "" => DEq(s.sign, b)]
     ELSE [accepts |-> ok => s.exc = "",
           \* the bracket is closed above: a zero there is a root inside it
           accepts_upper |-> (a # 0 /\ ~DIsNan(s.flow) /\ DEq(s.fhigh, 0)) => (s.exc = "" /\ DEq(s.sign, -a)),
           rejects |-> bad => (s.exc # "" /\ s.valueerror),
           only_valueerror |-> s.exc # "" => s.valueerror,
           bracket |-> s.exc = "" => DEq(s.slow, s.low) /\ DEq(s.shigh, s.high),
           sign |-> ok /\ s.exc = "" => DEq(s.sign, b),
           fun_evals |-> s.exc = "" => DEq(s.nfe, 2)]
\* fval: the function at the returned point, recorded independently
UpdateClauses(s) ==
  LET m == DMul("0.5", DAdd(s.low, s.high))
      sg == Sgn(s.fval)
      want == IF B!KeepLow(s.dir, sg) THEN <<s.low, m>> ELSE <<m, s.high>>
      alt == IF sg = 0 THEN <<s.low, m>> ELSE want            \* exact root: either half
      near == DMul("1E-14", DAdd(DAbs(s.low), DAbs(s.high)))
  IN IF s.exc # "" THEN [no_exception |-> FALSE]
     ELSE [midpoint |-> DClose(s.params, m, "1E-15", near),
           bracket |-> VClose(<<s.slow, s.shigh>>, want, "1E-15", near) \/ VClose(<<s.slow, s.shigh>>, alt, "1E-15", near),
           value |-> DClose(s.value, s.fval, "1E-9", "1E-14"),
           error |-> DClose(s.error, DAbs(s.fval), "1E-9", "1E-14"),
           sign_kept |-> DEq(s.sign, s.dir),
           iter_num |-> DEq(s.iter_num, s.k + 1),
           fun_evals |-> DEq(s.nfe, s.k + 3),
           aux |-> VClose(s.aux, s.auxwant, "1E-9", "1E-14")]
\* mids, vals: points and values visited by hand-made updates
RunStop(s) == LET S == {i \in 1..Len(s.vals) : DLe(DAbs(s.vals[i]), s.tol) /\ i <= s.maxiter} IN
  IF S = {} THEN (IF s.maxiter < Len(s.vals) THEN s.maxiter ELSE Len(s.vals)) ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE DPow2(_)
DPow2(n) == IF n = 0 THEN "1" ELSE DMul(2, DPow2(n - 1))
RunClauses(s) ==
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET n == RunStop(s)  fuzzy == \E i \in 1..Len(s.vals) : DClose(DAbs(s.vals[i]), s.tol, "1E-6", "1E-13") IN
    [iterations |-> fuzzy \/ DEq(s.iter_num, n),
     params |-> fuzzy \/ DClose(s.params, s.mids[n], "1E-12", "1E-13"),
     \* a true root (where known) lies within width / 2^n of the result
     near_root |-> s.root # "" => DLe(DAbs(DSub(s.params, s.root)),
                     DAdd("1E-12", DDiv(DSub(s.high, s.low), DPow2(n)))),
     tolerance |-> (n < s.maxiter /\ ~fuzzy) => DLe(s.error, s.tol)]

BisectClauses(t, i) ==
  LET s == t.steps[i] IN
  CASE s.op = "init" -> InitClauses(s)
    [] s.op = "update" -> UpdateClauses(s)
    [] s.op = "run" -> RunClauses(s)
    [] s.op = "deriv" -> [no_exception |-> s.exc = "", derivative |-> s.exc = "" => VClose(s.got, s.want, "1E-5", "1E-6")]
    [] s.op = "same" -> [no_exception |-> s.exc = "", same |-> s.exc = "" => VClose(s.a, s.b, "1E-9", "1E-12")]
=============================================================================
