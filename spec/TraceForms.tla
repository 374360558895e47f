------------------------------ MODULE TraceForms ------------------------------
(* Executions with the objective in another form against the plain form.      *)
(* x: the returned parameters, at: the point the last update evaluated        *)
(* (recorded from the plain execution), aux: what the state reports.          *)
EXTENDS TraceLib
Sz(v) == DAdd(1, IF VFin(v) THEN VMaxAbs(v) ELSE 0)
Aux(x) == [i \in 1..Len(x) |-> DAdd(x[i], 1)] \o <<VSqNorm(x)>>
VNear(a, b) == VClose(a, b, "1E-7", DMul("1E-8", Sz(b)))
FormsClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE [same_params |-> VNear(s.x, s.refx),
        same_state |-> VClose(s.state, s.refstate, "1E-6", "1E-8"),
        aux |-> ~t.aux \/ VNear(s.aux, Aux(s.at)),
        aux_structure |-> ~t.aux \/ s.auxtree = t.auxtree,
        no_aux |-> t.aux \/ s.aux = <<>>,
        structure |-> s.structure = s.refstructure]
=============================================================================
