------------------------------- MODULE MCProj -------------------------------
(* The oracle of C12 against brute force: for every input on a grid and     *)
(* every set below, the oracle's point lies in the set and no grid point of *)
(* the set is nearer.                                                       *)
EXTENDS Proj, TLC
Half == {"-2", "-1.5", "-1", "-0.5", "0", "0.5", "1", "1.5", "2", "3"}
Thin == {"-2", "-1", "0", "0.5", "2"}
Cases == { <<"non_negative", <<>>>>, <<"box", <<<<"-1", "0">>, <<"0.5", "0">>>>>>, <<"hypercube", <<<<"1.5">>>>>>,
           <<"simplex", <<<<"1">>>>>>, <<"simplex", <<<<"2">>>>>>, <<"l1_sphere", <<<<"1.5">>>>>>, <<"l1_ball", <<<<"1.5">>>>>>,
           <<"l2_sphere", <<<<"1">>>>>>, <<"l2_ball", <<<<"1.5">>>>>>, <<"linf_ball", <<<<"1">>>>>>,
           <<"hyperplane", <<<<"1", "2">>, <<"1">>>>>>, <<"halfspace", <<<<"1", "-2">>, <<"-1">>>>>>,
           <<"affine_set", <<<<"1.5">>, <<"1", "-1">>>>>>,
           <<"box_section", <<<<"-1", "0">>, <<"1", "2">>, <<"1", "2">>, <<"1">>>>>>,
           <<"box_section", <<<<"-1", "0">>, <<"1", "2">>, <<"1", "2">>, <<"5">>>>>> }
Cases3 == { <<"simplex", <<<<"2">>>>>>, <<"l1_ball", <<<<"1">>>>>>, <<"box_section", <<<<"0", "-1", "0">>, <<"1", "1", "0.5">>, <<"1", "2", "1">>, <<"0.5">>>>>>,
            <<"affine_set", <<<<"1.5", "0">>, <<"1", "-1", "0">>, <<"1", "1", "1">>>>>> }
G == <<<<"1", "1">>, <<"-1", "0.5">>, <<"0", "-1">>>>
H == <<"1", "1", "0.5">>
VARIABLES x, c
Init == \/ c \in Cases \union {<<"polyhedron", <<>>>>, <<"polyhedron_eq", <<>>>>} /\ x \in [1..2 -> Half]
        \/ c \in Cases3 \union {<<"sparse", <<>>>>} /\ x \in [1..3 -> Thin]
Next == UNCHANGED <<x, c>>
NoCloser(y, C) == \A z \in C : DLe(SqDist(x, y), DAdd(SqDist(x, z), "1E-30"))
PolyIn(z, e) == \A k \in 1..3 : DLe(VDot(G[k], z), DAdd(H[k], e))
Sound ==
  IF c[1] = "polyhedron" THEN
    LET y == Polyhedron(x, <<>>, <<>>, G, H, "1E-30") IN y # <<>> /\ PolyIn(y, "1E-25") /\ NoCloser(y, {z \in [1..2 -> Half] : PolyIn(z, 0)})
  ELSE IF c[1] = "polyhedron_eq" THEN
    LET y == Polyhedron(x, <<<<"1", "-1">>>>, <<"0.5">>, G, H, "1E-30")
        E(z, e) == PolyIn(z, e) /\ DClose(DSub(z[1], z[2]), "0.5", 0, e)
    IN y # <<>> /\ E(y, "1E-25") /\ NoCloser(y, {z \in [1..2 -> Half] : E(z, 0)})
  ELSE IF c[1] = "sparse" THEN
    LET d == SparseSimplexDist(x, 2, "1")
        C == {z \in [1..3 -> {"0", "0.25", "0.5", "0.75", "1"}] : In("simplex", z, <<<<"1">>>>, 0) /\ \E i \in 1..3 : z[i] = "0"}
    IN /\ \A z \in C : DLe(d, DAdd(SqDist(x, z), "1E-30"))
       /\ \E S \in SUBSET (1..3) : Cardinality(S) = 2 /\ DEq(d, SqDist(x, SparseSimplexOn(x, S, "1")))
                                   /\ In("simplex", SparseSimplexOn(x, S, "1"), <<<<"1">>>>, "1E-30")
  ELSE IF c[1] = "l2_sphere" /\ DEq(VSqNorm(x), 0) THEN TRUE
  ELSE LET y == P(c[1], x, c[2])
           grid == [1..Len(x) -> IF Len(x) = 2 THEN Half ELSE Thin]
       IN In(c[1], y, c[2], "1E-25") /\ NoCloser(y, {z \in grid : In(c[1], z, c[2], 0)})
\* for 2x2 and 2x3 transport: the vertex enumeration contains what it must
Transport ==
  /\ Cardinality(PermVertices(3)) = 6
  /\ Vertices(<<"1", "1">>, <<"1", "1">>) = PermVertices(2)
  /\ LET V == Vertices(<<"0.5", "0.5">>, <<"0.25", "0.25", "0.5">>) IN
       /\ \A v \in V : \A k \in 1..6 : DGe(v[k], 0)
       /\ \A v \in V : Marginals(<<SubSeq(v, 1, 3), SubSeq(v, 4, 6)>>, <<"0.5", "0.5">>, <<"0.25", "0.25", "0.5">>, "1E-30")
ASSUME Transport
=============================================================================
