------------------------------ MODULE RunLoop ------------------------------
(***************************************************************************)
(* The protocol of IterativeSolver.run: init_state, then update, until the *)
(* error is no longer above the tolerance, the iteration bound is reached, *)
(* or (if asked for) a line search has failed.  The very first update is   *)
(* unconditional, except that with maxiter = 0 its effect is discarded.    *)
(***************************************************************************)
EXTENDS Dec

\* One more update is wanted after an update that left error e and
\* line-search-failure flag f.  A nan error does not ask for another update.
Continue(e, f, tol, stopls) == DGt(e, tol) /\ ~(stopls /\ f)

\* Number of updates made, given the errors/failures e[1], e[2], ... that the
\* successive updates would produce (a long enough sequence).
RECURSIVE StopFrom(_, _, _, _, _, _)
StopFrom(k, e, f, tol, stopls, maxiter) ==
  IF k >= maxiter \/ ~Continue(e[k], f[k], tol, stopls) THEN k
  ELSE StopFrom(k + 1, e, f, tol, stopls, maxiter)
StopIndex(e, f, tol, stopls, maxiter) ==
  IF maxiter = 0 THEN 0 ELSE StopFrom(1, e, f, tol, stopls, maxiter)

-----------------------------------------------------------------------------
(* The state machine. *)
CONSTANTS MaxMaxiter, ErrClasses, Tol

VARIABLES maxiter, stopls, phase, k, err, fail, es, fs
vars == <<maxiter, stopls, phase, k, err, fail, es, fs>>

Init ==
  /\ maxiter \in 0..MaxMaxiter
  /\ stopls \in BOOLEAN
  /\ phase = "init" /\ k = 0 /\ err = "inf" /\ fail = FALSE
  /\ es = <<>> /\ fs = <<>>

\* the environment (the objective function) decides what an update yields
Update ==
  /\ \/ phase = "init" /\ maxiter > 0
     \/ phase = "loop" /\ k < maxiter /\ Continue(err, fail, Tol, stopls)
  /\ \E e \in ErrClasses, f \in (IF stopls THEN BOOLEAN ELSE {FALSE}) :
       err' = e /\ fail' = f /\ es' = Append(es, e) /\ fs' = Append(fs, f)
  /\ k' = k + 1 /\ phase' = "loop"
  /\ UNCHANGED <<maxiter, stopls>>
Stop ==
  /\ \/ phase = "init" /\ maxiter = 0
     \/ phase = "loop" /\ ~(k < maxiter /\ Continue(err, fail, Tol, stopls))
  /\ phase' = "done"
  /\ UNCHANGED <<maxiter, stopls, k, err, fail, es, fs>>
Next == Update \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bound == k <= maxiter
CountIsUpdates == k = Len(es)
NoEarlyStop ==
  phase = "done" => \/ k = maxiter
                    \/ ~DGt(err, Tol)
                    \/ stopls /\ fail
NoLateStop == \A i \in 1..(Len(es) - 1) : Continue(es[i], fs[i], Tol, stopls)
StopIndexAgrees == phase = "done" => StopIndex(es, fs, Tol, stopls, maxiter) = k
Terminates == <>(phase = "done")
=============================================================================
