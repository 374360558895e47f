---------------------------- MODULE MCBacktrack ----------------------------
(* Backtracking against every objective: the environment decides at each     *)
(* trial whether the decrease and the second condition hold, or the value is *)
(* not a number.  Behaviours are replayed in the real code.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxIters, Conds
VARIABLES cond, maxiter, hist, done, failed
vars == <<cond, maxiter, hist, done, failed>>
Outcomes == {"ok", "decrease-only", "second-only", "neither", "nan"}
Holds(cd, o) == o = "ok" \/ (cd = "armijo" /\ o = "decrease-only")
Init == cond \in Conds /\ maxiter \in 1..MaxIters /\ hist = <<>> /\ done = FALSE /\ failed = FALSE
Step == /\ ~done /\ ~failed
        /\ \E o \in Outcomes :
             /\ hist' = Append(hist, o)
             /\ done' = Holds(cond, o)
             /\ failed' = (~Holds(cond, o) /\ Len(hist) + 1 = maxiter)
        /\ UNCHANGED <<cond, maxiter>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Bounded == Len(hist) <= maxiter
DoneIff == done <=> hist # <<>> /\ Holds(cond, hist[Len(hist)])
EarliestOnly == \A i \in 1..(Len(hist) - 1) : ~Holds(cond, hist[i])
FailedIff == failed <=> Len(hist) = maxiter /\ \A i \in 1..Len(hist) : ~Holds(cond, hist[i])
Exclusive == ~(done /\ failed)
Ends == <>(done \/ failed)
Gen == (done \/ failed) => PrintT("GEN|" \o ToJson([cond |-> cond, maxiter |-> maxiter, hist |-> hist]))
=============================================================================
