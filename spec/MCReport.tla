------------------------------ MODULE MCReport -------------------------------
(* Points are indices; Val/Gr give arbitrary values and gradients.  The line   *)
(* search tries points in any order and ends accepted, exhausted at the last   *)
(* trial, or at the safe point it remembered; the solver caches what the       *)
(* search hands back.  Discipline of the caches: certified stops.              *)
EXTENDS Report, FiniteSets, TLC
CONSTANTS Tol, Bug
VARIABLES x, cache, err, iter, ls, grads, stopped
vars == <<x, cache, err, iter, ls, grads, stopped>>
P == 0..3
\* three gradients per point: large, at the tolerance, zero
Gs == {<<"3", "-4">>, <<"0.6", "0.8">>, <<"0", "0">>}
Init == /\ grads \in [P -> Gs] /\ x = 0
        /\ cache = [val |-> 0, grad |-> 0, aux |-> 0] /\ err = "inf" /\ iter = 0
        /\ ls = [on |-> FALSE, at |-> 0, safe |-> 0, n |-> 0] /\ stopped = FALSE
Start == ~ls.on /\ ~stopped /\ iter < 2 /\ ls' = [on |-> TRUE, at |-> x, safe |-> x, n |-> 0] /\ UNCHANGED <<x, cache, err, iter, grads, stopped>>
Try == /\ ls.on /\ ls.n < 2
       /\ \E p \in P, good \in BOOLEAN : ls' = [ls EXCEPT !.at = p, !.safe = IF good THEN p ELSE @, !.n = @ + 1]
       /\ UNCHANGED <<x, cache, err, iter, grads, stopped>>
Return(p) ==
  /\ x' = p
  /\ cache' = [val |-> IF Bug THEN ls.at ELSE p, grad |-> p, aux |-> p]
  /\ err' = GradNorm(grads[p])
  /\ iter' = iter + 1 /\ ls' = [ls EXCEPT !.on = FALSE]
  /\ stopped' = ~DGt(err', Tol)
  /\ UNCHANGED grads
Finish == ls.on /\ ls.n > 0 /\ (Return(ls.at) \/ Return(ls.safe))
Next == Start \/ Try \/ Finish
CachesCurrent == cache = [val |-> x, grad |-> x, aux |-> x]
ErrorCurrent == iter > 0 => DEq(err, GradNorm(grads[x]))
Certified == stopped => DLe(GradNorm(grads[x]), Tol)
=============================================================================
