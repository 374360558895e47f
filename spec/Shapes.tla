------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* A parameter vector of N entries packed into a tree of arrays: leaves are  *)
(* closed one after the other (also empty ones), then a container is chosen. *)
(* On every packing a method that uses inner products takes two steps; the   *)
(* packed run must be the packing of the flat run.  With Leafwise = TRUE the *)
(* step length is computed leaf by leaf, which is a different method.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Leafwise
VARIABLES used, lv, nest
vars == <<used, lv, nest>>
Dims(k) == CASE k = 0 -> {<<0>>} [] k = 1 -> {<<>>, <<1>>} [] k = 2 -> {<<2>>, <<1, 2>>} [] k = 4 -> {<<4>>, <<2, 2>>} [] OTHER -> {<<k>>}
Size(d) == IF Len(d) = 0 THEN 1 ELSE IF Len(d) = 1 THEN d[1] ELSE d[1] * d[2]
Init == used = 0 /\ lv = <<>> /\ nest = ""
Leaf == /\ nest = "" /\ used < N /\ Len(lv) < 4
        /\ \E k \in 0..(N - used), d \in UNION {Dims(k) : k \in 0..N} :
             /\ Size(d) = k /\ (k = 0 => \A i \in 1..Len(lv) : lv[i] # <<0>>)
             /\ lv' = Append(lv, d) /\ used' = used + k
        /\ UNCHANGED nest
Close == /\ used = N /\ nest = ""
         /\ nest' \in {"tuple", "list", "dict", "nested", "named", "none"}
         /\ UNCHANGED <<used, lv>>
Next == Leaf \/ Close
\* integer arithmetic on packings
Off(i) == LET S[j \in 0..Len(lv)] == IF j = 0 THEN 0 ELSE S[j-1] + Size(lv[j]) IN S[i-1]
Pack(x) == [i \in 1..Len(lv) |-> SubSeq(x, Off(i) + 1, Off(i) + Size(lv[i]))]
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Cat(Tail(t))
VDot(x, y) == LET S[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE S[i-1] + x[i] * y[i] IN S[Len(x)]
TDot(t, u) == LET S[i \in 0..Len(t)] == IF i = 0 THEN 0 ELSE S[i-1] + VDot(t[i], u[i]) IN S[Len(t)]
X0 == [i \in 1..N |-> (i % 3) - 1]
G(x) == [i \in 1..Len(x) |-> x[i] + x[(i % Len(x)) + 1]]        \* couples neighbours, also across leaves
FlatStep(x) == LET g == G(x) IN [i \in 1..N |-> x[i] - VDot(g, g) * g[i]]
TreeStep(t) == LET g == Pack(G(Cat(t))) IN
  [i \in 1..Len(t) |-> [k \in 1..Len(t[i]) |-> t[i][k] - (IF Leafwise THEN VDot(g[i], g[i]) ELSE TDot(g, g)) * g[i][k]]]
Closed == nest # ""
Packs == Closed => Cat(Pack(X0)) = X0
Commutes == Closed => TreeStep(TreeStep(Pack(X0))) = Pack(FlatStep(FlatStep(X0)))
Emit == Closed => PrintT("GEN|" \o ToJson([lv |-> lv, nest |-> nest]))
=============================================================================
