-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A number is a string holding a decimal literal   *)
(* ("0.1", "-3.25E-7"), an integer, or one of "nan", "inf", "-inf".        *)
(*                                                                         *)
(* The scalar operators are replaced by the Java class java/Dec.java       *)
(* (BigDecimal, 45 significant digits, IEEE rules for nan and inf, every   *)
(* comparison with nan is FALSE).  The right-hand sides of the scalar      *)
(* operators below are only stubs that fix name and arity.  The vector     *)
(* operators are overridden for speed only; MCDec.tla checks them, and the *)
(* algebra of the scalars, against the TLA+ definitions written here.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

DAdd(a, b) == CHOOSE c \in STRING : TRUE
DSub(a, b) == CHOOSE c \in STRING : TRUE
DMul(a, b) == CHOOSE c \in STRING : TRUE
DDiv(a, b) == CHOOSE c \in STRING : TRUE
DNeg(a)    == CHOOSE c \in STRING : TRUE
DAbs(a)    == CHOOSE c \in STRING : TRUE
DSqrt(a)   == CHOOSE c \in STRING : TRUE
DExp(a)    == CHOOSE c \in STRING : TRUE
DLog(a)    == CHOOSE c \in STRING : TRUE
DNorm(a)   == CHOOSE c \in STRING : TRUE      \* canonical spelling
DLt(a, b)  == CHOOSE c \in BOOLEAN : TRUE
DLe(a, b)  == CHOOSE c \in BOOLEAN : TRUE
DEq(a, b)  == CHOOSE c \in BOOLEAN : TRUE
DIsNan(a)  == CHOOSE c \in BOOLEAN : TRUE
DIsFin(a)  == CHOOSE c \in BOOLEAN : TRUE

DGt(a, b) == DLt(b, a)
DGe(a, b) == DLe(b, a)
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DSq(a) == DMul(a, a)
DSign(a) == IF DLt(a, 0) THEN -1 ELSE IF DLt(0, a) THEN 1 ELSE 0

\* |a - b| <= atol + rtol * max(|a|, |b|); equal infinities and two nans agree
DClose(a, b, rtol, atol) ==
  \/ DEq(a, b)
  \/ DIsNan(a) /\ DIsNan(b)
  \/ /\ DIsFin(a) /\ DIsFin(b)
     /\ DLe(DAbs(DSub(a, b)), DAdd(atol, DMul(rtol, DMax(DAbs(a), DAbs(b)))))

(* ------------------------------- vectors ------------------------------- *)
VSumDef(x) == LET S[i \in 0..Len(x)] == IF i = 0 THEN "0" ELSE DAdd(S[i-1], x[i]) IN S[Len(x)]
VDotDef(x, y) == LET S[i \in 0..Len(x)] == IF i = 0 THEN "0" ELSE DAdd(S[i-1], DMul(x[i], y[i])) IN S[Len(x)]
VAddDef(x, y) == [i \in 1..Len(x) |-> DAdd(x[i], y[i])]
VSubDef(x, y) == [i \in 1..Len(x) |-> DSub(x[i], y[i])]
VScaleDef(c, x) == [i \in 1..Len(x) |-> DMul(c, x[i])]
VAxpyDef(c, x, y) == [i \in 1..Len(x) |-> DAdd(DMul(c, x[i]), y[i])]
VMaxAbsDef(x) == LET S[i \in 0..Len(x)] == IF i = 0 THEN "0" ELSE DMax(S[i-1], DAbs(x[i])) IN S[Len(x)]
MVecDef(A, x) == [i \in 1..Len(A) |-> VDotDef(A[i], x)]
MTVecDef(A, x) == [j \in 1..Len(A[1]) |-> LET S[i \in 0..Len(A)] == IF i = 0 THEN "0" ELSE DAdd(S[i-1], DMul(A[i][j], x[i])) IN S[Len(A)]]

VSum(x) == VSumDef(x)
VDot(x, y) == VDotDef(x, y)
VAdd(x, y) == VAddDef(x, y)
VSub(x, y) == VSubDef(x, y)
VScale(c, x) == VScaleDef(c, x)
VAxpy(c, x, y) == VAxpyDef(c, x, y)
VMaxAbs(x) == VMaxAbsDef(x)
MVec(A, x) == MVecDef(A, x)
MTVec(A, x) == MTVecDef(A, x)

\* the solution of A x = b, <<>> if A is singular or not finite (Java override;
\* MCDec checks that MVec(A, MSolve(A, b)) = b)
MSolve(A, b) == CHOOSE x \in Seq(STRING) : TRUE

VSqNorm(x) == VDot(x, x)
VNorm(x) == DSqrt(VDot(x, x))
VZero(n) == [i \in 1..n |-> "0"]
VFin(x) == \A i \in 1..Len(x) : DIsFin(x[i])

\* componentwise closeness, absolute part scaled by the vector's size
VClose(x, y, rtol, atol) ==
  /\ Len(x) = Len(y)
  /\ LET tol == DAdd(atol, DMul(rtol, DMax(IF VFin(x) THEN VMaxAbs(x) ELSE "0",
                                            IF VFin(y) THEN VMaxAbs(y) ELSE "0")))
     IN \A i \in 1..Len(x) : DClose(x[i], y[i], 0, tol)
=============================================================================
