----------------------------- MODULE MCCounters -----------------------------
(* The machine behind Counters: a solver with a line search, evaluation by  *)
(* evaluation; the totals are compared with the closed forms at the end of   *)
(* every search, and the solver's own counters with what was evaluated.      *)
EXTENDS Counters
CONSTANTS MaxLs, Steps, Bug
VARIABLES pc, o, f, g, ls, done, failed, steps, seen, rep, nls, repls
vars == <<pc, o, f, g, ls, done, failed, steps, seen, rep, nls, repls>>
Init ==
  /\ pc = "init" /\ f = 0 /\ g = 0 /\ ls = 0 /\ done = FALSE /\ failed = FALSE /\ steps = 0 /\ nls = 0 /\ repls = 0
  /\ o \in [kind : Kinds, given : BOOLEAN, extra : BOOLEAN, box : BOOLEAN]
  /\ (o.extra => o.kind = "zoom") /\ (o.box => o.kind = "zoom")
  /\ seen = <<0, 0>> /\ rep = <<0, 0>>
V(n) == f' = f + n /\ g' = g /\ seen' = <<seen[1] + n, seen[2]>>
VG(n) == f' = f + n /\ g' = g + n /\ seen' = <<seen[1] + n, seen[2] + n>>
None == UNCHANGED <<f, g, seen>>
SolverInit == /\ pc = "init" /\ VG(1) /\ rep' = InitCost("quasi", 0) /\ pc' = "start"
              /\ UNCHANGED <<o, ls, done, failed, steps, nls, repls>>
Start == /\ pc = "start" /\ steps < Steps
         /\ f' = B(~o.given) + B(o.extra) /\ g' = B(~o.given) /\ seen' = <<seen[1] + f', seen[2] + g'>>
         /\ ls' = 0 /\ done' = FALSE /\ failed' = FALSE /\ pc' = IF o.kind = "hager-zhang" THEN "bracket" ELSE "search"
         /\ UNCHANGED <<o, steps, rep, nls, repls>>
Bracket == \E m \in 1..2 : /\ pc = "bracket" /\ VG(m + 2) /\ done' \in BOOLEAN /\ pc' = IF done' THEN "last" ELSE "search"
                           /\ UNCHANGED <<o, ls, failed, steps, rep, nls, repls>>
Iterate == \E ok, give \in BOOLEAN :
  /\ pc = "search" /\ ls < MaxLs
  /\ ls' = ls + 1 /\ nls' = nls + 1 /\ done' = ok
  /\ (give => o.kind = "zoom") /\ ~(give /\ ok)        \* only zoom gives up early
  /\ failed' = (~ok /\ (give \/ ls + 1 = MaxLs))
  /\ CASE o.kind \in {"armijo", "goldstein"} -> V(1)
       [] o.kind \in {"wolfe", "strong-wolfe", "zoom"} -> VG(1)
       [] o.kind = "hager-zhang" -> \E m \in 0..2 : VG(3 + m + B(~o.given))
  /\ pc' = IF done' \/ failed' THEN "last" ELSE "search"
  /\ UNCHANGED <<o, steps, rep, repls>>
Last ==
  /\ pc = "last"
  /\ IF o.kind \in {"armijo", "goldstein"} \/ (o.kind = "zoom" /\ failed) THEN VG(1) ELSE None
  /\ pc' = "report" /\ UNCHANGED <<o, ls, done, failed, steps, rep, nls, repls>>
\* the solver takes over the counters of the search; in a box it may have to shorten the step
Report == \E short \in BOOLEAN :
  /\ pc = "report" /\ (short => o.box)
  /\ rep' = <<rep[1] + f + B(short), rep[2] + g + B(short /\ ~Bug)>> /\ repls' = repls + ls
  /\ IF short THEN VG(1) ELSE None
  /\ steps' = steps + 1 /\ pc' = "start" /\ UNCHANGED <<o, ls, done, failed, nls>>
Next == SolverInit \/ Start \/ Bracket \/ Iterate \/ Last \/ Report
ClosedForm == pc = "report" => Legal(o, ls, failed, f, g)
Accounted == pc = "start" => rep = seen /\ repls = nls
Values == seen[1] >= seen[2] /\ rep[1] >= rep[2]
Bounded == nls <= MaxLs * (steps + 1)
=============================================================================
