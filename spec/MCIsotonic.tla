----------------------------- MODULE MCIsotonic -----------------------------
(* The pool-adjacent-violators machine: blocks are merged while two adjacent  *)
(* ones violate the order, in any order the environment likes; every          *)
(* execution ends with the min-max solution.  The min-max solution is         *)
(* monotone, no monotone vector of a grid is nearer, and clipping it solves   *)
(* the bounded problem.                                                       *)
EXTENDS Isotonic, Naturals, TLC
CONSTANT G, NMax
VARIABLES y, blocks          \* blocks: sequence of <<first, last>>
Init == \E n \in 1..NMax : y \in [1..n -> G] /\ blocks = [i \in 1..n |-> <<i, i>>]
val(b) == Mean(SubSeq(y, b[1], b[2]))
Merge(i) ==
  /\ i \in 1..(Len(blocks) - 1)
  /\ DGt(val(blocks[i]), val(blocks[i+1]))
  /\ blocks' = [j \in 1..(Len(blocks) - 1) |-> IF j < i THEN blocks[j] ELSE IF j = i THEN <<blocks[i][1], blocks[i+1][2]>> ELSE blocks[j+1]]
Next == UNCHANGED y /\ \E i \in 1..NMax : Merge(i)
Spec == Init /\ [][Next]_<<y, blocks>> /\ WF_<<y, blocks>>(Next)
Done == ~\E i \in 1..(Len(blocks) - 1) : DGt(val(blocks[i]), val(blocks[i+1]))
Fit == [k \in 1..Len(y) |-> val(blocks[CHOOSE i \in 1..Len(blocks) : blocks[i][1] <= k /\ k <= blocks[i][2]])]
S == MinMax(y)
Mono(v) == \A i \in 1..(Len(v) - 1) : DLe(v[i], DAdd(v[i+1], "1E-30"))
Sq(v) == VSqNorm(VSub(v, y))
Correct == Done => VClose(Fit, S, "1E-30", "1E-30")
\* the solution never leaves the merged blocks: merging is never wrong
Safe == \A b \in {blocks[i] : i \in 1..Len(blocks)} : \A i \in b[1]..b[2] : DClose(S[i], S[b[1]], "1E-30", "1E-30")
Optimal == blocks[1] = <<1, 1>> /\ Len(blocks) = Len(y) =>
  /\ Mono(S)
  /\ \A z \in [1..Len(y) -> G] : Mono(z) => DLe(Sq(S), DAdd(Sq(z), "1E-30"))
  /\ LET c == Clip(S, "-0.6", "0.75") IN
       \A z \in [1..Len(y) -> (G \cap {"-0.5", "0", "0.5"}) \cup {"-0.6", "0.75"}] : Mono(z) => DLe(Sq(c), DAdd(Sq(z), "1E-30"))
  /\ VClose(MinMax(VScale(-1, [i \in 1..Len(y) |-> y[Len(y)+1-i]])), VScale(-1, [i \in 1..Len(y) |-> S[Len(y)+1-i]]), "1E-30", "1E-30")
Terminates == <>Done
=============================================================================
