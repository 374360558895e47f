-------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* The ways an iterative solver can be executed, and why they must agree.    *)
(* A lane needs Need[b] outer updates; its k-th update needs Inner(b, k)     *)
(* steps of an inner loop (a line search).  Loops run as                     *)
(*   python: leave when the condition is false                               *)
(*   while:  the same, decided on the device                                 *)
(*   scan:   a fixed number of rounds; rounds after the end are no-ops       *)
(* and, batched, as rounds over all lanes until no lane wants another one,   *)
(* in which a lane that has finished must keep its state (mask).             *)
(* The state of a lane is the sequence of inner steps taken by each update,  *)
(* i.e. its whole history; whatever the mode, it must end with the history   *)
(* of a lone lane.  Mask = FALSE forgets the mask, Extra > 0 adds rounds.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lanes, MaxIter, MaxInner, Mask, Extra
VARIABLES need, style, hist, cur, round, phase
vars == <<need, style, hist, cur, round, phase>>
Inner(b, k) == ((b + 2 * k) % MaxInner) + 1
Min(a, b) == IF a < b THEN a ELSE b
\* a lone lane
Solo(b) == [k \in 1..Min(need[b], MaxIter) |-> Inner(b, k)]
Styles == {"python", "while", "scan"}
Init == /\ need \in [Lanes -> 1..(MaxIter + 1)] /\ style \in Styles
        /\ (style = "python" => Cardinality(Lanes) = 1)
        /\ hist = [b \in Lanes |-> <<>>] /\ cur = [b \in Lanes |-> 0] /\ round = 0 /\ phase = "update"
\* first update is unconditional, later ones need the condition
Wants(b) == Len(hist[b]) = 0 \/ (Len(hist[b]) < need[b] /\ Len(hist[b]) < MaxIter)
InnerWants(b) == cur[b] < Inner(b, Len(hist[b]) + 1)
\* one round of the inner loop over all lanes
InnerRound == /\ phase = "update" /\ \E b \in Lanes : InnerWants(b)
              /\ cur' = [b \in Lanes |-> IF InnerWants(b) \/ ~Mask THEN cur[b] + 1 ELSE cur[b]]
              /\ UNCHANGED <<need, style, hist, round, phase>>
\* the inner loop has ended for all lanes: the update is complete; lanes that
\* did not want it computed it anyway and keep their old state
OuterRound == /\ phase = "update" /\ \A b \in Lanes : ~InnerWants(b)
              /\ hist' = [b \in Lanes |-> IF Wants(b) \/ ~Mask THEN Append(hist[b], cur[b]) ELSE hist[b]]
              /\ cur' = [b \in Lanes |-> 0] /\ round' = round + 1
              /\ phase' = IF style = "scan" THEN (IF round + 1 < MaxIter + Extra THEN "update" ELSE "done")
                          ELSE IF \E b \in Lanes : Len(hist'[b]) < need[b] /\ Len(hist'[b]) < MaxIter THEN "update" ELSE "done"
              /\ UNCHANGED <<need, style>>
Next == InnerRound \/ OuterRound
SameAsSolo == phase = "done" => \A b \in Lanes : hist[b] = Solo(b)
RoundsBounded == round <= MaxIter + Extra
\* every mode a user may ask for
ModeSet == [jit : BOOLEAN, unroll : {"auto", "yes", "no"}, imp : BOOLEAN, verbose : BOOLEAN, outer : {"none", "jit", "vmap", "vmapjit"}]
Valid(m) == /\ ~m.jit => m.unroll # "no" /\ m.outer = "none"      \* python loops branch on values
            /\ m.verbose => m.outer \in {"none", "jit"}           \* ordered printing has no batched form
Reference(m) == m.jit /\ m.unroll = "auto" /\ m.imp /\ ~m.verbose /\ m.outer = "none"
Emit == (round = 0 /\ style = "while" /\ (\A b \in Lanes : need[b] = 1 /\ cur[b] = 0)) =>
          \A m \in ModeSet : (Valid(m) /\ ~Reference(m)) => PrintT("GEN|" \o ToJson(m))
=============================================================================
