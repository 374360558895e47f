------------------------------ MODULE TraceSame ------------------------------
(* Two executions that must agree.  Every step carries one or more named      *)
(* observations with what the reference execution gave for the same abstract  *)
(* position (the harness only records; which positions correspond is fixed by *)
(* the schedule, which the specification generated).                          *)
EXTENDS TraceLib
Fld(s) == DOMAIN s.obs
Agree(s, f) == VClose(s.obs[f], s.ref[f], s.rtol, s.atol)
SameClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [same_params |-> "params" \in Fld(s) => Agree(s, "params"),
        same_state |-> "state" \in Fld(s) => Agree(s, "state"),
        same_error |-> "error" \in Fld(s) => Agree(s, "error"),
        same_value |-> "value" \in Fld(s) => Agree(s, "value"),
        same_counts |-> "counts" \in Fld(s) => Agree(s, "counts"),
        same_aux |-> "aux" \in Fld(s) => Agree(s, "aux"),
        same_structure |-> s.structure = s.ref_structure,
        fields_recorded |-> DOMAIN s.obs = DOMAIN s.ref]
=============================================================================
