------------------------------- MODULE Binding -------------------------------
(***************************************************************************)
(* How the arguments of a decorated solver travel: the call is bound to the  *)
(* solver's own signature, flattened to positions for the differentiation    *)
(* boundary, unflattened, bound to the reference signature, differentiated   *)
(* by position, and the cotangents are carried back to the slots of the call.*)
(* Every value is a token (the name of the parameter it is meant for, or     *)
(* "default"); a slot whose token is p must get the cotangent of p.          *)
(* When the reference binding leaves a gap (an omitted parameter with a       *)
(* default before one given by keyword) positions cannot express the call:   *)
(* it is refused, never differentiated wrongly.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bug, Emit
Params == <<"a", "b", "c">>
Closed(name, pos, kwonly, dflt) == [name |-> name, pos |-> pos, kwonly |-> kwonly, open |-> FALSE, dflt |-> dflt]
Open(name, dflt) == [name |-> name, pos |-> <<"init">>, kwonly |-> <<>>, open |-> TRUE, dflt |-> dflt]
\* dflt: the parameters with defaults (in the reference as well)
Sigs == {Closed("plain", <<"init", "a", "b", "c">>, <<>>, {}),
         Closed("kwonly", <<"init", "a">>, <<"c", "b">>, {}),
         Closed("allkw", <<"init">>, <<"b", "c", "a">>, {}),
         Closed("defaults", <<"init", "a", "b", "c">>, <<>>, {"b", "c"}),
         Open("open", {}), Open("refsig", {}), Open("opendefaults", {"b", "c"})}
RefOrder == <<"x", "a", "b", "c">>
Rng(s) == {s[i] : i \in 1..Len(s)}
Perms(S) == IF S = {} THEN {<<>>} ELSE {q \in [1..Cardinality(S) -> S] : Rng(q) = S}
\* the calls a signature admits: a positional prefix, then keywords in any order
Order(s) == IF s.open THEN <<"init">> \o Params ELSE s.pos
All(s) == {"init"} \cup Rng(Params)
Calls(s) == UNION {UNION {{[npos |-> k, kw |-> q] : q \in Perms(K)} :
              K \in {K \in SUBSET (All(s) \ Rng(SubSeq(Order(s), 1, k))) :
                       /\ All(s) \ (Rng(SubSeq(Order(s), 1, k)) \cup K) \subseteq s.dflt
                       /\ (s.open => "init" \notin K)}} :
            k \in (IF s.open THEN 1 ELSE 0)..Len(Order(s))}
VARIABLES pc, sig, call, args, kws, flat, keys, bound, cot
vars == <<pc, sig, call, args, kws, flat, keys, bound, cot>>
Init == /\ pc = "call" /\ sig \in Sigs /\ call \in Calls(sig)
        /\ args = <<>> /\ kws = <<>> /\ flat = <<>> /\ keys = <<>> /\ bound = <<>> /\ cot = <<>>
Given == Rng(SubSeq(Order(sig), 1, call.npos)) \cup Rng(call.kw)
Tok(p) == IF p \in Given THEN p ELSE "default-" \o p
BindSolver ==
  /\ pc = "call" /\ pc' = "flatten"
  /\ args' = IF sig.open THEN SubSeq(Order(sig), 1, call.npos) ELSE [i \in 1..Len(sig.pos) |-> Tok(sig.pos[i])]
  /\ kws' = IF sig.open THEN call.kw ELSE sig.kwonly
  /\ UNCHANGED <<sig, call, flat, keys, bound, cot>>
Flatten ==
  /\ pc = "flatten" /\ pc' = "reference"
  /\ flat' = args \o [i \in 1..Len(kws) |-> Tok(kws[i])]
  /\ keys' = kws
  /\ UNCHANGED <<sig, call, args, kws, bound, cot>>
\* [param, slot]: the position of the reference each slot of flat is bound to
NPos == Len(flat) - Len(keys)
SlotOf(j) == IF j <= NPos THEN j
             ELSE LET S == {i \in 1..Len(keys) : keys[i] = RefOrder[j]} IN IF S = {} THEN 0 ELSE NPos + (CHOOSE i \in S : TRUE)
BindRef ==
  LET n == Len(flat) IN
  /\ pc = "reference"
  /\ IF \A j \in 1..n : SlotOf(j) # 0
     THEN bound' = [j \in 1..n |-> SlotOf(j)] /\ pc' = "products"
     ELSE bound' = <<>> /\ pc' = "refused"
  /\ UNCHANGED <<sig, call, args, kws, flat, keys, cot>>
\* cotangent number j belongs to parameter j of the reference
Products ==
  /\ pc = "products" /\ pc' = "done"
  /\ cot' = [i \in 1..Len(flat) |-> IF Bug THEN RefOrder[i] ELSE RefOrder[CHOOSE j \in 1..Len(bound) : bound[j] = i]]
  /\ UNCHANGED <<sig, call, args, kws, flat, keys, bound>>
Done == /\ pc \in {"done", "refused"} /\ pc' = "end"
        /\ UNCHANGED <<sig, call, args, kws, flat, keys, bound, cot>>
        /\ (Emit => PrintT("GEN|" \o ToJson([sig |-> sig.name, order |-> SubSeq(Order(sig), 1, call.npos), kw |-> call.kw, refused |-> (pc = "refused")])))
Next == BindSolver \/ Flatten \/ BindRef \/ Products \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Base(tok) == IF tok \in {"a", "b", "c", "init"} THEN tok ELSE CHOOSE p \in {"a", "b", "c"} : tok = "default-" \o p
Routed == pc = "done" => \A i \in 1..Len(flat) : IF Base(flat[i]) = "init" THEN cot[i] = "x" ELSE cot[i] = Base(flat[i])
EachOnce == pc = "done" => Cardinality(Rng(cot)) = Len(cot) /\ Given \ {"init"} \subseteq Rng(cot)
RefusedOnlyGaps == pc = "refused" => sig.open /\ \E p \in sig.dflt : p \notin Given
Ends == <>(pc = "end")
=============================================================================
