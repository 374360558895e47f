------------------------------- MODULE MCDec -------------------------------
(* Self-test of the Dec override: algebra of the scalars on a grid, and the *)
(* vector overrides against their TLA+ definitions.                         *)
EXTENDS Dec, TLC
G == {"0", "1", "-1", "-2.5E-3", "7.25E+10", "1E-30", "inf", "-inf", "nan"}
F == {g \in G : DIsFin(g)}
V == {"0.5", "-3"}
VARIABLES a, b, c, v, w
Init == a \in G /\ b \in G /\ c \in G /\ v \in [1..2 -> V] /\ w \in [1..2 -> V]
Next == UNCHANGED <<a, b, c, v, w>>
Fin3 == a \in F /\ b \in F /\ c \in F
Algebra ==
  /\ DAdd(a, b) = DAdd(b, a)
  /\ DMul(a, b) = DMul(b, a)
  /\ Fin3 => DClose(DAdd(DAdd(a, b), c), DAdd(a, DAdd(b, c)), "1E-40", "1E-30")
  /\ Fin3 => DClose(DMul(a, DAdd(b, c)), DAdd(DMul(a, b), DMul(a, c)), "1E-30", "1E-15")
  /\ (a \in F /\ b \in F /\ ~DEq(b, 0)) => DClose(DMul(DDiv(a, b), b), a, "1E-40", 0)
  /\ (a \in F /\ DLe(0, a)) => DClose(DSq(DSqrt(a)), a, "1E-40", 0)
  /\ (a \in F /\ DLt(0, a)) => DClose(DExp(DLog(a)), a, "1E-36", 0)
  /\ (a \in F /\ b \in F) => (DLt(a, b) <=> DLt(DSub(a, b), 0))
  /\ (DIsNan(a) => ~DLe(a, b) /\ ~DLt(b, a) /\ ~DEq(a, a))
  /\ (~DIsNan(a) /\ ~DIsNan(b)) => (DLe(a, b) \/ DLt(b, a))
  /\ DIsNan(DAdd("inf", "-inf")) /\ DIsNan(DMul("0", "inf")) /\ DIsNan(DDiv("0", "0")) /\ DDiv(1, 0) = "inf"
  /\ DClose(DExp(1), "2.71828182845904523536028747135266249775724709369995", "1E-40", 0)
  /\ DClose(DLog(10), "2.302585092994045684017991454684364207601101488628772976", "1E-40", 0)
  /\ DIsNan(DSqrt("-1")) /\ DLog(0) = "-inf" /\ DExp("-inf") = "0"
Vectors ==
  LET x == v  y == w  A == <<v, w, <<"1", "2">>>> IN
  /\ VSum(x) = VSumDef(x) /\ VDot(x, y) = VDotDef(x, y) /\ VAdd(x, y) = VAddDef(x, y)
  /\ VSub(x, y) = VSubDef(x, y) /\ VScale("0.3", x) = VScaleDef("0.3", x)
  /\ VAxpy("0.3", x, y) = VAxpyDef("0.3", x, y) /\ VMaxAbs(x) = VMaxAbsDef(x)
  /\ MVec(A, x) = MVecDef(A, x) /\ MTVec(A, <<v[1], w[1], v[2]>>) = MTVecDef(A, <<v[1], w[1], v[2]>>)

Solve ==
  LET A == <<v, w>>  r == <<a, b>>  x == MSolve(A, r)
      det == DSub(DMul(v[1], w[2]), DMul(v[2], w[1]))
      B == <<<<"0", "2", "1">>, <<v[1], "0", w[1]>>, <<"1", "1", "-4.5">>>>  z == MSolve(B, <<"1", v[2], w[2]>>)
  IN /\ (a \in F /\ b \in F) =>
          IF DEq(det, 0) THEN x = <<>>
          ELSE Len(x) = 2 /\ VClose(MVec(A, x), r, "1E-28", "1E-28")
     /\ Len(z) = 3 /\ VClose(MVec(B, z), <<"1", v[2], w[2]>>, "1E-35", "1E-35")
=============================================================================
