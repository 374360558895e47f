-------------------------------- MODULE MCMix --------------------------------
(* The solver's memory: a ring of M slots and a Gram matrix of which only one *)
(* row and column is refreshed per update.  The map is arbitrary: each call   *)
(* may return any residual of the grid.  Checked in every state:              *)
(*  - the slots hold exactly the M most recent points with their residuals;   *)
(*  - every entry of the matrix between filled slots is the inner product of   *)
(*    the residuals now in them (no stale entry survives a replacement);       *)
(*  - mixing only happens with a full ring, at multiples of F;                 *)
(*  - the weights sum to one and no transfer of weight between two slots       *)
(*    lowers the ridge objective;                                              *)
(*  - on an affine map of the plane (kind "affine") mixing three points in     *)
(*    general position with ridge 0 gives the fixed point itself.              *)
EXTENDS Mix, TLC
CONSTANTS M, F, K, Bug
VARIABLES kind, x, ring, gram, log, last
vars == <<kind, x, ring, gram, log, last>>
Resid == {<<"1", "0">>, <<"-1", "2">>, <<"0.5", "0.5">>, <<"0", "0">>}
Slots == 0..(M-1)
None == [x |-> <<>>, r |-> <<>>]
A == <<<<"0.5", "0.25">>, <<"-1", "0.5">>>>  b == <<"1", "2">>
Star == MSolve(<<<<"0.5", "-0.25">>, <<"1", "0.5">>>>, b)
Init == /\ kind \in {"any", "affine"} /\ x = <<"1", "-1">> /\ ring = [s \in Slots |-> None]
        /\ gram = [s \in Slots |-> [u \in Slots |-> "0"]] /\ log = <<>> /\ last = "init"
n == Len(log)
Ridge == IF kind = "affine" THEN "0" ELSE "0.125"
Beta == IF kind = "affine" THEN "0" ELSE "0.5"
Ringed == [i \in 1..M |-> ring[i-1]]
RG == [i \in 1..M |-> [j \in 1..M |-> gram[i-1][j-1]]]
Step(r0) ==
  LET mixes == Mixes(n, M, F)
      a == IF mixes THEN Weights(RG, Ridge) ELSE <<>>
      p == IF mixes THEN Combine(Ringed, a, Beta) ELSE x
      r == IF kind = "affine" THEN VSub(VAdd(MVec(A, p), b), p) ELSE r0
      pos == n % M
      ring2 == [ring EXCEPT ![pos] = [x |-> p, r |-> r]]
  IN /\ n < K
     /\ (mixes => a # <<>>)
     /\ ring' = ring2
     /\ gram' = [s \in Slots |-> [u \in Slots |->
                   IF (s = pos \/ (u = pos /\ ~Bug)) /\ ring2[s] # None /\ ring2[u] # None THEN VDot(ring2[s].r, ring2[u].r) ELSE gram[s][u]]]
     /\ log' = Append(log, [x |-> p, r |-> r])
     /\ x' = VAdd(p, r)
     /\ last' = IF mixes THEN "mix" ELSE "plain"
     /\ UNCHANGED kind
Next == \E r0 \in (IF kind = "affine" THEN {<<"0", "0">>} ELSE Resid) : Step(r0)
Fresh == {ring[s] : s \in {s \in Slots : ring[s] # None}} = {log[i] : i \in {i \in 1..n : i > n - M}}
GramFresh == \A s, u \in Slots : (ring[s] # None /\ ring[u] # None) => DEq(gram[s][u], VDot(ring[s].r, ring[u].r))
MixOnlyFull == last = "mix" => n > M /\ (n - 1) % F = 0
Now == Recent(log, M)
Tiny == "1E-30"
Shift(a, i, j, h) == [k \in 1..Len(a) |-> IF k = i THEN DAdd(a[k], h) ELSE IF k = j THEN DSub(a[k], h) ELSE a[k]]
Minimal == (n >= M /\ kind = "any") =>
  LET G == Gram(Now)  a == Weights(G, Ridge)
  IN /\ a # <<>> /\ DClose(VSum(a), 1, Tiny, Tiny)
     /\ \A i, j \in 1..M, h \in {"0.01", "-0.3"} : i = j \/ DLe(MixObj(G, Ridge, a), DAdd(MixObj(G, Ridge, Shift(a, i, j, h)), Tiny))
\* the order of the slots does not matter
AnyOrder == (n >= M /\ kind = "any") => VClose(Mixed(Ringed, Ridge, Beta), Mixed(Now, Ridge, Beta), Tiny, Tiny)
AffineExact == (kind = "affine" /\ M = 3 /\ last = "mix" /\ n = M + 1 /\ F = 1) => VClose(log[n].x, Star, "1E-25", Tiny)
=============================================================================
