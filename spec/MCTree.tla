------------------------------- MODULE MCTree -------------------------------
(* Cutting vectors into leaves and working leaf by leaf (map, or map and    *)
(* add/max up) equals the vector operation, for every cut.                  *)
EXTENDS TreeOps, FiniteSets, TLC
G == {"-1", "0", "2"}
R == <<"1", "-2", "0.5">>
Cuts == {<<3>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>}
VARIABLES re, im, y, c, cut
Init == re \in [1..3 -> G] /\ im \in {<<"0", "1", "0">>, <<"1", "1", "-2">>} /\ y \in {<<"1", "-0.5", "1">>, <<"-0.5", "1", "1">>} /\ c \in {<<<<"3">>, <<"0">>>>, <<<<"0">>, <<"-1">>>>} /\ cut \in Cuts
Next == UNCHANGED <<re, im, y, c, cut>>
Cat(parts) == LET F[i \in 0..Len(parts)] == IF i = 0 THEN <<<<>>, <<>>>> ELSE <<F[i-1][1] \o parts[i][1], F[i-1][2] \o parts[i][2]>> IN F[Len(parts)]
x == <<re, im>>
w == <<y, R>>
cond == [i \in 1..3 |-> IF re[i] = "0" THEN 0 ELSE 1]
Parts(op) == LET off == Offsets(cut) IN [i \in 1..Len(cut) |->
   Op(op, Slice(x, off[i], cut[i]), Slice(w, off[i], cut[i]), c, SubSeq(cond, off[i] + 1, off[i] + cut[i]))]
SumUp(parts) == LET F[i \in 0..Len(parts)] == IF i = 0 THEN <<<<"0">>, <<"0">>>> ELSE Add(F[i-1], parts[i]) IN F[Len(parts)]
Same(a, b) == VClose(a[1], b[1], 0, "1E-35") /\ VClose(a[2], b[2], 0, "1E-35")
LeafWise ==
  /\ \A op \in ElementWise \ {"reciproqual"} : Same(Cat(Parts(op)), Op(op, x, w, c, cond))
  /\ \A op \in {"vdot", "vdot_real", "sum", "sqnorm"} : Same(SumUp(Parts(op)), Op(op, x, w, c, cond))
  /\ DEq(Max([i \in 1..Len(cut) |-> Parts("inf_norm")[i][1][1]]), Op("inf_norm", x, w, c, cond)[1][1])
  /\ DClose(DSq(Op("norm", x, w, c, cond)[1][1]), Op("sqnorm", x, w, c, cond)[1][1], "1E-40", "1E-40")
  /\ DEq(Op("vdot", x, x, c, cond)[1][1], Op("sqnorm", x, w, c, cond)[1][1])
  /\ Same(Mul(w, Op("reciproqual", w, w, c, cond)), Const("1", 3))
  /\ (cut = <<3>> => DClose(TreeMean(Real(re), cut), DDiv(VSum(re), 3), "1E-40", "1E-40"))
=============================================================================
