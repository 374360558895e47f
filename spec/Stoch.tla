-------------------------------- MODULE Stoch --------------------------------
(***************************************************************************)
(* Stochastic methods.  o is the batch: F(o, .) of FirstOrder.tla, plus      *)
(* -l * sum log x_i when o.l is not 0 (undefined outside the positive        *)
(* orthant).                                                               *)
(*  - Polyak: gamma = (f - fmin)/(|g|^2 + delta), capped (SPS_max) or         *)
(*    floored at 0 (SPS+), and 0 where g = 0; v' = mom v - gamma g.           *)
(*  - Armijo: a search over step sizes: decrease while the decrease is not    *)
(*    sufficient; the goldstein option increases while it is more than        *)
(*    expected; at most maxls rounds.                                       *)
(*  - a gradient transformation: x' = x + delta(g, state, x).                *)
(***************************************************************************)
EXTENDS FirstOrder
HasLog(o) == ~DEq(o.l, 0)
LogPos(x) == \A i \in 1..Len(x) : DLt(0, x[i])
SF(o, x) == IF ~HasLog(o) THEN F(o, x)
            ELSE IF ~LogPos(x) THEN "nan" ELSE DSub(F(o, x), DMul(o.l, VSum([i \in 1..Len(x) |-> DLog(x[i])])))
SG(o, x) == IF ~HasLog(o) THEN DF(o, x)
            ELSE VSub(DF(o, x), [i \in 1..Len(x) |-> DDiv(o.l, x[i])])
PolyakStep(variant, f, g, fmin, delta, cap) ==
  LET q == VSqNorm(g) IN
  IF DEq(q, 0) THEN "0"
  ELSE IF variant = "SPS_max" THEN DMin(DDiv(DSub(f, fmin), DAdd(q, delta)), cap)
  ELSE DMax("0", DDiv(DSub(f, fmin), q))
\* one round of the search from step size s; c = 1 - aggressiveness
At(o, x, g, s) == SF(o, VAxpy(DNeg(s), g, x))
TooLong(o, x, g, c, s) == ~DLe(DMul(s, DMul(c, VSqNorm(g))), DSub(SF(o, x), At(o, x, g, s)))
TooShort(o, x, g, c, s) == DLt(At(o, x, g, s), DSub(SF(o, x), DMul(s, DMul(DSub(1, c), VSqNorm(g)))))
\* sets of step sizes that may result: a decision within rounding of its bound goes either way
Gap1(o, x, g, c, s) == DSub(DMul(s, DMul(c, VSqNorm(g))), DSub(SF(o, x), At(o, x, g, s)))
Gap2(o, x, g, c, s) == DSub(At(o, x, g, s), DSub(SF(o, x), DMul(s, DMul(DSub(1, c), VSqNorm(g)))))
Unsure(gap, f) == DIsFin(gap) /\ DLe(DAbs(gap), DMul("1E-12", DAdd(1, DAbs(f))))
Either(b, unsure) == IF unsure THEN {TRUE, FALSE} ELSE {b}
\* p = [c, dec, inc, cap, gold, maxls]
RECURSIVE Search(_, _, _, _, _, _)
Search(o, x, g, p, s, k) ==
  IF k = 0 THEN {s}
  ELSE LET f == SF(o, x) IN
    UNION {
      LET s1 == IF w THEN DMin(DMul(s, p.dec), p.cap) ELSE s IN
      UNION {
        LET s2 == IF u THEN DMin(DMul(s1, p.inc), p.cap) ELSE s1 IN
        IF w \/ u THEN Search(o, x, g, p, s2, k - 1) ELSE {s2}
        : u \in (IF p.gold THEN Either(TooShort(o, x, g, p.c, s1), Unsure(Gap2(o, x, g, p.c, s1), f)) ELSE {FALSE})}
      : w \in Either(TooLong(o, x, g, p.c, s), Unsure(Gap1(o, x, g, p.c, s), f))}
Reset(option, s, inc, cap) == IF option = "increase" THEN DMin(DMul(s, inc), cap) ELSE s
Ended(L, maxiter) == [drawn |-> IF L < maxiter + 1 THEN L ELSE maxiter + 1, updates |-> IF L - 1 < maxiter THEN L - 1 ELSE maxiter]
=============================================================================
