------------------------------- MODULE Bisect -------------------------------
(***************************************************************************)
(* Bisection as a state machine on the dyadic grid 0..2^K.  The function is *)
(* drawn lazily: the environment picks the sign at every midpoint.          *)
(*   dir = 1: increasing (negative at 0, positive at 2^K), -1: decreasing.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT K
VARIABLES dir, low, high, k, visited     \* visited: <<point, sign>> in order
bvars == <<dir, low, high, k, visited>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
N == Pow2(K)

Mid(l, h) == (l + h) \div 2
\* which half is kept
KeepLow(d, s) == d * s > 0
Next2(d, l, h, s) == LET m == Mid(l, h) IN IF KeepLow(d, s) THEN <<l, m>> ELSE <<m, h>>

BInit == dir \in {1, -1} /\ low = 0 /\ high = N /\ k = 0 /\ visited = <<>>
BNext ==
  /\ k < K
  /\ \E s \in {-1, 0, 1} :
       /\ visited' = Append(visited, <<Mid(low, high), s>>)
       /\ low' = Next2(dir, low, high, s)[1]
       /\ high' = Next2(dir, low, high, s)[2]
  /\ k' = k + 1
  /\ UNCHANGED dir

SignAt(p) == IF p = 0 THEN -dir ELSE IF p = N THEN dir
             ELSE LET i == CHOOSE i \in 1..Len(visited) : visited[i][1] = p IN visited[i][2]
\* the bracket halves, its ends have been evaluated and keep opposite signs,
\* and every evaluation was at a new point inside the bracket
Width == (high - low) * Pow2(k) = N
Bracket == dir * SignAt(low) <= 0 /\ dir * SignAt(high) > 0
Fresh == \A i, j \in 1..Len(visited) : visited[i][1] = visited[j][1] => i = j
\* a sign change (the root of every continuous function with these signs) lies
\* in the bracket, so the last midpoint is within N / 2^k of it
Near == visited # <<>> => LET m == visited[Len(visited)][1] IN low <= m /\ m <= high /\ (m = low \/ m = high)
Nested == [][low <= low' /\ high' <= high]_bvars
=============================================================================
