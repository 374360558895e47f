------------------------------- MODULE MCLoss -------------------------------
(* Structural facts of the losses on a grid: non-negativity, Fenchel-Young  *)
(* inequality and its equality case, agreement of the binary loss with the  *)
(* two-class multiclass loss, margins, and the maximum in Gini by search.   *)
EXTENDS Loss, TLC
G == {"-3", "-0.5", "0", "0.25", "2"}
VARIABLES x, lab
Init == x \in [1..3 -> G] /\ lab \in {0, 1, 2}
Next == UNCHANGED <<x, lab>>
eps == "-1E-30"
S == {q \in [1..3 -> {"0", "0.25", "0.5", "0.75", "1"}] : DEq(VSum(q), 1)}
v(k) == L(k, x, <<<<lab>>>>)[1]
two == <<"0", x[1]>>
b(k) == L(k, <<x[1]>>, <<<<lab % 2>>>>)[1]
m2(k) == L(k, two, <<<<lab % 2>>>>)[1]
Facts ==
  /\ \A k \in {"multiclass_logistic", "multiclass_sparsemax", "multiclass_hinge", "multiclass_perceptron"} : DGe(v(k), eps)
  /\ \A k \in {"binary_logistic", "binary_sparsemax", "binary_hinge", "binary_perceptron"} : DGe(b(k), eps)
  /\ DClose(b("binary_logistic"), m2("multiclass_logistic"), "1E-30", "1E-30")
  /\ DClose(b("binary_sparsemax"), m2("multiclass_sparsemax"), "1E-30", "1E-30")
  /\ DClose(b("binary_perceptron"), m2("multiclass_perceptron"), "1E-30", "1E-30")
  /\ DClose(b("binary_hinge"), m2("multiclass_hinge"), "1E-30", "1E-30")
  /\ DLe(v("multiclass_perceptron"), DAdd(v("multiclass_hinge"), "1E-30"))
  /\ DLe(v("multiclass_perceptron"), DAdd(v("multiclass_logistic"), "1E-30"))
  \* Gini(x) is the maximum of <q,x> + (1-|q|^2)/2: no q on a grid beats it
  /\ \A q \in S : DLe(DAdd(VDot(q, x), DMul("0.5", DSub(1, VSqNorm(q)))), DAdd(Gini(x), "1E-30"))
  \* LSE is the conjugate of negative entropy: Fenchel-Young inequality
  /\ \A q \in S : DLe(DSub(VDot(q, x), VSum([i \in 1..3 |-> IF DEq(q[i], 0) THEN "0" ELSE DMul(q[i], DLog(q[i]))])), DAdd(LSE(x), "1E-30"))
  \* Huber: quadratic and linear pieces meet, between |.|-1/2 and the square
  /\ LET h == L("huber", <<x[1]>>, <<<<x[2]>>, <<"1">>>>)[1]  a == DAbs(DSub(x[1], x[2])) IN
       DLe(h, DMul("0.5", DSq(a))) /\ DGe(h, DSub(a, "0.5"))
=============================================================================
