------------------------------ MODULE Counters ------------------------------
(***************************************************************************)
(* Accounting of evaluations.  A solver's step makes a number of           *)
(* evaluations of the objective (f) and of its gradient (g; computing a     *)
(* gradient also gives the value); its line search some more.  Legal says   *)
(* which totals a line search of ls iterations can come to, Init and Step   *)
(* what a solver adds to its counters.                                      *)
(*   given  the value and gradient at the start are passed in               *)
(*   extra  the auxiliary output at the start is not, and is wanted         *)
(***************************************************************************)
EXTENDS Integers
B(p) == IF p THEN 1 ELSE 0
Kinds == {"armijo", "goldstein", "wolfe", "strong-wolfe", "zoom", "hager-zhang"}
Legal(o, ls, failed, f, g) ==
  LET i == B(~o.given)
  IN CASE o.kind \in {"armijo", "goldstein"} ->   \* values while searching, one gradient at the end
            f = i + ls + 1 /\ g = i + 1
       [] o.kind \in {"wolfe", "strong-wolfe"} -> \* value and gradient at every trial
            f = i + ls /\ g = i + ls
       [] o.kind = "zoom" ->                      \* as above, and the safe step of a search that failed
            g = i + ls + B(failed) /\ f = g + B(o.extra)
       [] o.kind = "hager-zhang" ->               \* bracketing, then at least three points an iteration
            f = g /\ f >= i + 3 + ls * (3 + i)
       [] OTHER -> f >= ls                        \* a search whose kind is not known
\* <<f, g>> of init_state
InitCost(s, n) ==
  CASE s \in {"quasi", "block"} -> <<1, 1>>
    [] s \in {"broyden", "anderson", "polyak"} -> <<1, 0>>
    [] s = "fixed-point" -> <<0, 0>>
    [] s = "bisection" -> <<2, 0>>
    [] s = "mirror" -> <<n, 0>>          \* n = 1: the auxiliary output of the first point
\* <<f, g>> of an update without line search
StepCost(s, n) ==
  CASE s \in {"quasi", "polyak", "mirror"} -> <<1, 1>>
    [] s \in {"broyden", "anderson", "fixed-point", "bisection"} -> <<1, 0>>
    [] s = "block" -> <<n, n>>           \* n = number of blocks
=============================================================================
