--------------------------- MODULE TraceCounters ---------------------------
(* Recorded steps: what the state's counters grew by (f, g, ls; -1: no such    *)
(* counter), what the user's functions were called for (sf, sg; -1: cannot be  *)
(* told), against each other and against Counters.tla.                         *)
EXTENDS TraceLib
C == INSTANCE Counters
CountersClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE LET cost == IF s.op = "init" THEN C!InitCost(s.solver, s.n) ELSE IF s.kind = "none" THEN C!StepCost(s.solver, s.n) ELSE <<>>
           o == [kind |-> s.kind, given |-> s.given, extra |-> s.extra]
           counted == s.g # -1
           \* a step that had to be shortened is evaluated once more
           slack == IF s.box THEN {0, 1} ELSE {0}
  IN [fun_evals |-> s.f # -1 => s.f = s.sf,
      grad_evals |-> counted => (IF s.sg = -1 THEN s.g <= s.f ELSE s.g = s.sg),
      cost |-> CASE s.op \in {"init", "step"} /\ cost # <<>> -> s.f = cost[1] /\ (counted => s.g = cost[2]) /\ s.ls \in {0, -1}
                 [] s.op \in {"step", "search"} -> \E k \in slack, fail \in Range1(s.failed) : \E gg \in (IF counted THEN {s.g} ELSE 0..s.f + 1) : C!Legal(o, s.ls, fail, s.f - k, gg - k)
                 [] OTHER -> TRUE,
      search_iters |-> s.kind # "none" /\ s.op # "init" => s.ls >= 0 /\ s.ls <= s.maxls * s.updates,
      others |-> s.other = s.seen_other,
      same_as_loop |-> s.same]
=============================================================================
