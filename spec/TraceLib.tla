------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Trace validation.  The recorded traces are a JSON array of records      *)
(* [id, site, ..., steps : Seq(record)].  A trace module supplies          *)
(* StepClauses(t, i): a record of named Booleans that say whether step i   *)
(* of trace t (a record) is a step the specification allows.  TLC visits   *)
(* every step of every trace; a clause that is FALSE is reported, and the  *)
(* walk goes on, so one run gives a verdict on all traces.  The runner     *)
(* checks that the number of states equals the number of steps + traces,   *)
(* i.e. that every trace was consumed to its end.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Dec

CONSTANT StepClauses(_, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos

Report(id, step, clauses) ==
  \A c \in DOMAIN clauses :
    clauses[c] \/ PrintT("FAIL|" \o id \o "|" \o ToString(step) \o "|" \o c)

TraceInit == tr \in 1..Len(Traces) /\ pos = 0
TraceNext ==
  /\ pos < Len(Traces[tr].steps)
  /\ pos' = pos + 1
  /\ UNCHANGED tr
  /\ Report(Traces[tr].id, pos', StepClauses(Traces[tr], pos'))

Has(r, f) == f \in DOMAIN r
Range1(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
