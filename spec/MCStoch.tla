------------------------------- MODULE MCStoch -------------------------------
(* Three machines, selected by `kind`:                                        *)
(*  iter    an iterator of L batches feeds a solver with budget N: the first   *)
(*          batch initialises, every further one makes one update;             *)
(*  armijo  the step-size search against an environment that answers "too      *)
(*          long" / "too short" arbitrarily, over several updates;             *)
(*  polyak  SPS_max on interpolating linear regressions, any batch order: the   *)
(*          distance to the common solution never increases.                   *)
EXTENDS Stoch, TLC, Json
CONSTANTS MaxL, MaxLs, Bug, Emit
VARIABLES kind, L, N, drawn, log, pc, s, prev, rounds, opt, last, x
vars == <<kind, L, N, drawn, log, pc, s, prev, rounds, opt, last, x>>
Star == <<"1", "-1">>
Rows == {<<"1", "0">>, <<"1", "2">>, <<"-1", "1">>, <<"0.5", "0.25">>, <<"0", "0">>}
Init == /\ drawn = 0 /\ log = <<>> /\ prev = "1" /\ rounds = 0 /\ last = "none"
        /\ \/ kind = "iter" /\ L \in 1..MaxL /\ N \in 0..MaxL /\ pc = "init" /\ s = "1" /\ opt = "none" /\ x = Star
           \/ kind = "armijo" /\ L = 3 /\ N = 3 /\ pc = "reset" /\ s = "1" /\ opt \in {"increase", "conservative", "goldstein"} /\ x = Star
           \/ kind = "polyak" /\ L = 3 /\ N = 3 /\ pc = "step" /\ s = "1" /\ opt = "none" /\ x \in {<<"0", "0">>, <<"3", "1">>, Star, <<"1", "2">>}
\* iterator
First == kind = "iter" /\ pc = "init" /\ drawn' = 1 /\ pc' = "loop" /\ log' = <<>>
         /\ UNCHANGED <<kind, L, N, s, prev, rounds, opt, last, x>>
More == /\ kind = "iter" /\ pc = "loop" /\ Len(log) < (IF Bug THEN N + 1 ELSE N) /\ drawn < L
        /\ drawn' = drawn + 1 /\ log' = Append(log, drawn + 1)
        /\ UNCHANGED <<kind, L, N, pc, s, prev, rounds, opt, last, x>>
Stop == /\ kind = "iter" /\ pc = "loop" /\ ~(Len(log) < N /\ drawn < L) /\ pc' = "end"
        /\ UNCHANGED <<kind, L, N, drawn, log, s, prev, rounds, opt, last, x>>
        /\ (Emit => PrintT("GEN|" \o ToJson([L |-> L, maxiter |-> N, drawn |-> drawn, updates |-> Len(log)])))
\* search: dec 1/2, inc 3/2, cap 2
ResetStep == /\ kind = "armijo" /\ pc = "reset" /\ drawn < N /\ pc' = "search"
             /\ s' = Reset(opt, s, "1.5", "2") /\ prev' = s /\ rounds' = 0 /\ last' = "none"
             /\ UNCHANGED <<kind, L, N, drawn, log, opt, x>>
Round(w, u) ==
  LET s1 == IF w THEN DMin(DMul(s, "0.5"), "2") ELSE s
      s2 == IF u THEN DMin(DMul(s1, "1.5"), "2") ELSE s1 IN
  /\ kind = "armijo" /\ pc = "search" /\ rounds < MaxLs
  /\ (u => opt = "goldstein")
  /\ s' = s2 /\ rounds' = rounds + 1
  /\ last' = IF w \/ u THEN "moved" ELSE "accepted"
  /\ pc' = IF (w \/ u) /\ rounds + 1 < MaxLs THEN "search" ELSE "reset"
  /\ drawn' = IF (w \/ u) /\ rounds + 1 < MaxLs THEN drawn ELSE drawn + 1
  /\ UNCHANGED <<kind, L, N, prev, log, opt, x>>
\* Polyak on f(x) = (row . (x - Star))^2 / 2
PolyakMove(row) ==
  LET e == VDot(row, VSub(x, Star))
      g == VScale(e, row)
      st == PolyakStep("SPS_max", DMul("0.5", DSq(e)), g, "0", "0", "1") IN
  /\ kind = "polyak" /\ drawn < N /\ drawn' = drawn + 1
  /\ x' = VAxpy(DNeg(st), g, x) /\ s' = st
  /\ UNCHANGED <<kind, L, N, log, pc, prev, rounds, opt, last>>
Next == First \/ More \/ Stop \/ ResetStep \/ (\E w, u \in BOOLEAN : Round(w, u)) \/ (\E row \in Rows : PolyakMove(row))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EachOnceInOrder == kind = "iter" => log = [i \in 1..Len(log) |-> i + 1] /\ Len(log) <= N
AsDocumented == (kind = "iter" /\ pc = "end") => drawn = Ended(L, N).drawn /\ Len(log) = Ended(L, N).updates
Capped == kind = "armijo" => DLe(s, "2") /\ DLt(0, s)
Conservative == (kind = "armijo" /\ opt = "conservative") => DLe(s, prev)
NotAbove == (kind = "armijo" /\ opt = "increase") => DLe(s, DMul("1.5", prev))
Bounded == rounds <= MaxLs
Accepts == (kind = "armijo" /\ pc = "reset" /\ rounds > 0) => last = "accepted" \/ rounds = MaxLs
Closer == [][kind = "polyak" => DLe(VSqNorm(VSub(x', Star)), DAdd("1E-30", VSqNorm(VSub(x, Star))))]_vars
Ends == <>(kind # "iter" \/ pc = "end")
=============================================================================
