------------------------------- MODULE Resume --------------------------------
(***************************************************************************)
(* One solver object serving several executions ("jobs").  A job's point is *)
(* <<j, p>> after p updates; its state is what the solver returned: the      *)
(* memory (a ring of the last M points, as the quasi-Newton and Anderson     *)
(* solvers keep) and the number of updates, which locates the ring position. *)
(* Calls may be interleaved in any order, an execution may be resumed from   *)
(* any saved result, and the warm-restart solvers rebuild their state from   *)
(* an OptStep.  Every call must return the point and memory of the           *)
(* uninterrupted execution.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Jobs, MaxP, M, L, Warm, DropIter
VARIABLES cur, saved, sched, ok
vars == <<cur, saved, sched, ok>>
None == [p |-> -1, mem |-> <<>>, it |-> -1]
\* the uninterrupted execution
RECURSIVE Mem(_, _)
Mem(j, p) == IF p = 0 THEN [i \in 0..(M-1) |-> <<>>] ELSE [Mem(j, p-1) EXCEPT ![(p-1) % M] = <<j, p-1>>]
Ref(j, p) == [p |-> p, mem |-> Mem(j, p), it |-> p]
\* one update from a returned state: the ring is written at it % M
Step(j, s) == [p |-> s.p + 1, mem |-> [s.mem EXCEPT ![s.it % M] = <<j, s.p>>], it |-> s.it + 1]
RECURSIVE Steps(_, _, _)
Steps(j, s, n) == IF n = 0 THEN s ELSE Steps(j, Step(j, s), n - 1)
Fresh(j) == Ref(j, 0)
Rebuild(s) == IF DropIter THEN [s EXCEPT !.it = 0] ELSE s
Say(a, j) == sched' = Append(sched, <<a, j>>)
Start(j) == /\ cur' = [cur EXCEPT ![j] = Fresh(j)] /\ Say("init", j) /\ ok' = TRUE /\ UNCHANGED saved
Update(j) == /\ cur[j].p >= 0 /\ cur[j].p < MaxP
             /\ cur' = [cur EXCEPT ![j] = Step(j, @)] /\ Say("update", j)
             /\ ok' = (cur'[j] = Ref(j, cur'[j].p)) /\ UNCHANGED saved
Save(j) == /\ cur[j].p >= 1 /\ saved[j] # cur[j] /\ saved' = [saved EXCEPT ![j] = cur[j]] /\ Say("save", j) /\ UNCHANGED <<cur, ok>>
Back(j) == /\ saved[j].p >= 0 /\ cur[j] # saved[j] /\ cur' = [cur EXCEPT ![j] = saved[j]] /\ Say("back", j) /\ UNCHANGED <<saved, ok>>
WarmRestart(j) == /\ Warm /\ cur[j].p >= 1 /\ cur' = [cur EXCEPT ![j] = Rebuild(@)] /\ Say("warm", j) /\ UNCHANGED <<saved, ok>>
Run(j) == /\ Say("run", j) /\ ok' = (Steps(j, Fresh(j), MaxP) = Ref(j, MaxP)) /\ UNCHANGED <<cur, saved>>
RunFrom(j) == /\ Warm /\ cur[j].p >= 1 /\ cur[j].p < MaxP
              /\ ok' = (Steps(j, Rebuild(cur[j]), MaxP - cur[j].p) = Ref(j, MaxP)) /\ Say("runfrom", j) /\ UNCHANGED <<cur, saved>>
Init == cur = [j \in Jobs |-> None] /\ saved = [j \in Jobs |-> None] /\ sched = <<>> /\ ok = TRUE
Next == Len(sched) < L /\ \E j \in Jobs : Start(j) \/ Update(j) \/ Save(j) \/ Back(j) \/ WarmRestart(j) \/ Run(j) \/ RunFrom(j)
Invisible == ok
Consistent == \A j \in Jobs : cur[j].p >= 0 => cur[j] = Ref(j, cur[j].p)
\* schedules for replay: full length, at least three updates of job 1 and two other kinds of calls
Interesting == /\ Len(sched) = L
               /\ Cardinality({k \in 1..L : sched[k] = <<"update", 1>>}) >= 2
               /\ \E k \in 1..L : sched[k][1] \in {"back", "warm"}
               /\ sched[L][1] \in {"update", "run", "runfrom"}
               /\ Cardinality({k \in 1..L : sched[k][1] \in {"run", "runfrom"}}) <= 1
Emit == Interesting => PrintT("GEN|" \o ToJson(sched))
=============================================================================
