------------------------------ MODULE MCFlatten ------------------------------
(* Flattening and unflattening are inverse; the assembled blocks are the        *)
(* Jacobian of the flattened map; slopes are derivatives (central differences   *)
(* of these quartics are exact after one Richardson step).  Emits the           *)
(* configurations the wrappers are called with.                                 *)
EXTENDS Flatten, TLC, Json
CONSTANT Emit
VARIABLES st
ShapeSet == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 2>>, <<2, 1, 2>>}
Trees == UNION {[1..k -> ShapeSet] : k \in 1..3}
Total(sh) == LET F[i \in 0..Len(sh)] == IF i = 0 THEN 0 ELSE F[i-1] + Size(sh[i]) IN F[Len(sh)]
Num(n) == [i \in 1..n |-> ToString(((i * i + 3) % 7) - 3)]
Map(i, j, r, c) == [a \in 1..r |-> [b \in 1..c |-> ToString(((5 * i + 3 * j + 2 * a * b + a) % 5) - 2)]]
Methods == {"none", "CG", "BFGS", "L-BFGS-B", "SLSQP", "TNC", "Newton-CG", "Nelder-Mead", "Powell", "COBYLA", "COBYQA", "trust-constr"}
Bounded == {"none", "L-BFGS-B", "SLSQP", "TNC", "Nelder-Mead", "Powell", "COBYLA", "trust-constr"}
Roots == {"none", "hybr", "lm", "broyden1", "broyden2", "anderson", "diagbroyden", "krylov", "df-sane"}
Squares == {"none", "trf", "dogbox", "lm"}
Shape == {"vector", "matrix", "nested", "scalars"}
Configs == [what : {"min"}, method : Methods, tree : Shape, form : {"plain", "aux", "vg", "vg-aux"}, jit : BOOLEAN, extra : {"", "callback"}]
     \union [what : {"bounded"}, method : Bounded, tree : Shape, form : {"plain", "aux", "vg"}, jit : {TRUE}, extra : {"", "nobounds", "tight"}]
     \union [what : {"root"}, method : Roots, tree : Shape, form : {"plain", "aux"}, jit : BOOLEAN, extra : {"", "fwd"}]
     \union [what : {"ls", "lsb"}, method : Squares, tree : Shape, form : {"plain", "aux"}, jit : BOOLEAN, extra : {"linear", "soft_l1", "huber", "cauchy"}]
Init == /\ \/ st \in [kind : {"tree"}, sh : Trees]
           \/ st \in [kind : {"maps"}, sh : [1..2 -> ShapeSet], out : [1..2 -> ShapeSet]]
           \/ st \in [kind : {"slope"}, i : 1..3, x : [1..3 -> {"-1", "0", "0.5", "2"}]]
           \/ st \in [kind : {"config"}, c : Configs]
        /\ (Emit /\ st.kind = "config") => PrintT("GEN|" \o ToJson(st.c))
Next == UNCHANGED st
RoundTrip == st.kind = "tree" => LET n == Total(st.sh) IN
  /\ Flat(Unflat(st.sh, Num(n))) = Num(n)
  /\ Shapes(Unflat(st.sh, Num(n))) = st.sh
  /\ \A i \in 1..Len(st.sh) : Len(Unflat(st.sh, Num(n))[i].vals) = Size(st.sh[i])
Jacobian == st.kind = "maps" =>
  LET n == Total(st.sh)
      B == [i \in 1..2 |-> [j \in 1..2 |-> Map(i, j, Size(st.out[i]), Size(st.sh[j]))]]
      x == Unflat(st.sh, Num(n))
      y == [i \in 1..2 |-> [shape |-> st.out[i], vals |-> VAdd(MVec(B[i][1], x[1].vals), MVec(B[i][2], x[2].vals))]]
  IN MVec(Assemble(B), Flat(x)) = Flat(y) \/ VClose(MVec(Assemble(B), Flat(x)), Flat(y), 0, "1E-30")
O == [w |-> <<"1", "2", "0.5">>, a |-> <<"1", "-1", "0">>, s |-> "0.25", t |-> "-0.5"]
Exact == st.kind = "slope" =>
  LET Cd(h) == DDiv(DSub(Objective(O, [st.x EXCEPT ![st.i] = DAdd(st.x[st.i], h)]), Objective(O, [st.x EXCEPT ![st.i] = DSub(st.x[st.i], h)])), DMul(2, h))
  IN DClose(DDiv(DSub(DMul(4, Cd("0.5")), Cd("1")), 3), Slope(O, st.x)[st.i], 0, "1E-25")
=============================================================================
