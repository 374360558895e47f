-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* The forms in which an objective may be given, and what a solver must      *)
(* make of them.  An evaluation returns a term: "V" (value), "A" (aux),      *)
(* "G" (gradient) or a pair.  A form is <<has_aux, vg>>, vg in               *)
(* {"no", "same", "other"}: `fun` returns the value; `fun` returns value and *)
(* gradient; a second callable returns value and gradient.                   *)
(* Derived callables are paths into the user's outputs; the model checks     *)
(* that for every form the six derived callables return the right term, that *)
(* no derivative is taken of a callable whose gradient was supplied, and     *)
(* that one value-and-gradient costs one call.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Forms == [aux : BOOLEAN, vg : {"no", "same", "other"}]
\* what the user's callables return
Val(f) == IF f.aux THEN <<"V", "A">> ELSE "V"
FunOut(f) == IF f.vg = "same" THEN <<Val(f), "G">> ELSE Val(f)
VgOut(f) == <<Val(f), "G">>
\* derived callables: which user callable, differentiated or not, output
CONSTANT Bug
VG(f) == [src |-> IF f.vg = "other" THEN "vg" ELSE "fun", diff |-> f.vg = "no",
          out |-> <<IF f.aux THEN <<"V", "A">> ELSE <<"V", "none">>, "G">>, calls |-> 1]
Fun(f) == [src |-> "fun", diff |-> FALSE,
           out |-> LET o == FunOut(f)
                       v == IF f.vg = "same" /\ Bug # "unpack" THEN o[1] ELSE o
                   IN IF f.aux THEN v ELSE <<v, "none">>, calls |-> 1]
Grad(f) == [src |-> VG(f).src, diff |-> VG(f).diff, out |-> <<"G", VG(f).out[1][2]>>, calls |-> 1]
Strip(c, k) == [c EXCEPT !.out = CASE k = "fun" -> c.out[1] [] k = "grad" -> c.out[1] [] k = "vg" -> <<c.out[1][1], c.out[2]>>]
\* what an execution of a solver sees through each form: at point x the value,
\* gradient and aux of the objective, whatever the form
Sees(f) == [value |-> VG(f).out[1][1], fvalue |-> Fun(f).out[1], grad |-> VG(f).out[2], ggrad |-> Grad(f).out[1], aux |-> VG(f).out[1][2]]

VARIABLE form
Init == form \in Forms
Next == FALSE /\ form' = form
Shapes == /\ Fun(form).out = (IF form.aux THEN <<"V", "A">> ELSE <<"V", "none">>)
          /\ Strip(Fun(form), "fun").out = "V"
          /\ Strip(Grad(form), "grad").out = "G"
          /\ Strip(VG(form), "vg").out = <<"V", "G">>
NoDiff == form.vg # "no" => ~VG(form).diff /\ ~Grad(form).diff /\ ~Fun(form).diff
SameView == \A g \in Forms : [Sees(g) EXCEPT !.aux = ""] = [Sees(form) EXCEPT !.aux = ""]
AuxView == Sees(form).aux = (IF form.aux THEN "A" ELSE "none")
\* every form but the plain one is replayed against the plain one
Emit == PrintT("GEN|" \o ToJson([aux |-> form.aux, vg |-> form.vg]))
=============================================================================
