-------------------------------- MODULE Loss --------------------------------
(***************************************************************************)
(* Losses and objectives by their defining formulas (not by the            *)
(* overflow-safe rewritings of the code).  x: scores (a vector), p:        *)
(* parameters.  Values are vectors of length 1, except predictions.        *)
(***************************************************************************)
EXTENDS Dec, Proj

V1(v) == <<v>>
MaxOf(x) == LET M[i \in 1..Len(x)] == IF i = 1 THEN x[1] ELSE DMax(M[i-1], x[i]) IN M[Len(x)]
Softplus(z) == IF DGt(z, 0) THEN DAdd(z, DLog(DAdd(1, DExp(DNeg(z))))) ELSE DLog(DAdd(1, DExp(z)))
LSE(x) == LET m == MaxOf(x) IN DAdd(m, DLog(VSum([i \in 1..Len(x) |-> DExp(DSub(x[i], m))])))
SparsePlus(z) == IF DLe(z, -1) THEN "0" ELSE IF DGe(z, 1) THEN z ELSE DMul("0.25", DSq(DAdd(z, 1)))
Signed(lab, z) == IF DEq(lab, 1) THEN z ELSE DNeg(z)           \* labels 0 / 1
At(x, lab) == x[CHOOSE i \in 1..Len(x) : DEq(lab, i - 1)]      \* labels 0 .. n-1
\* max over the simplex of <q, x> + (1 - |q|^2) / 2
Gini(x) == LET q == Simplex(x, "1") IN DAdd(VDot(q, x), DMul("0.5", DSub(1, VSqNorm(q))))

(* ---- objectives: x = W flattened row by row (k columns) [, intercept] --- *)
\* p = <<y, <<l2>>, <<k>>, row1, ..., rown>>
Rows(p) == SubSeq(p, 4, Len(p))
Pred(x, p) == LET k == p[3][1]  d == Len(p[4]) IN
  [i \in 1..Len(Rows(p)) |-> [c \in 1..k |->
     DAdd(VDot(p[i + 3], [j \in 1..d |-> x[(j-1)*k + c]]), IF Len(x) > d * k THEN x[d*k + c] ELSE "0")]]
WOnly(x, p) == SubSeq(x, 1, Len(p[4]) * p[3][1])
Mean(v) == DDiv(VSum(v), Len(v))
MeanLogistic(x, p) == LET q == Pred(x, p) IN Mean([i \in 1..Len(q) |-> DSub(LSE(q[i]), At(q[i], p[1][i]))])
Ridge(x, p) == DMul(DMul("0.5", p[2][1]), VSqNorm(WOnly(x, p)))
LeastSq(x, p) == LET q == Pred(x, p) IN DMul("0.5", Mean([i \in 1..Len(q) |-> DSq(DSub(q[i][1], p[1][i]))]))
BinLog(x, p) == LET q == Pred(x, p) IN Mean([i \in 1..Len(q) |-> Softplus(DNeg(Signed(p[1][i], q[i][1])))])
\* SVM dual: beta (n x k) flattened, Y (n x k) flattened in p[1];
\* 1/(2 l2) |X^T (Y - beta)|^2 - <beta, 1 - Y>
SvmDual(x, p) ==
  LET k == p[3][1]  d == Len(p[4])  n == Len(Rows(p))
      V == [j \in 1..(d*k) |-> LET jj == ((j-1) \div k) + 1  c == ((j-1) % k) + 1 IN
              VSum([i \in 1..n |-> DMul(p[i+3][jj], DSub(p[1][(i-1)*k+c], x[(i-1)*k+c]))])]
  IN DSub(DMul(DDiv("0.5", p[2][1]), VSqNorm(V)), VDot(x, [i \in 1..(n*k) |-> DSub(1, p[1][i])]))

L(kind, x, p) ==
  CASE kind = "huber" -> LET a == DAbs(DSub(p[1][1], x[1]))  d == p[2][1] IN
                         V1(IF DLe(a, d) THEN DMul("0.5", DSq(a)) ELSE DMul(d, DSub(a, DMul("0.5", d))))
    [] kind = "binary_logistic" -> V1(Softplus(DNeg(Signed(p[1][1], x[1]))))
    [] kind = "binary_sparsemax" -> V1(SparsePlus(DNeg(Signed(p[1][1], x[1]))))
    [] kind = "sparse_plus" -> V1(SparsePlus(x[1]))
    [] kind = "sparse_sigmoid" -> V1(IF DLe(x[1], -1) THEN "0" ELSE IF DGe(x[1], 1) THEN "1" ELSE DMul("0.5", DAdd(x[1], 1)))
    [] kind = "binary_hinge" -> V1(Pos(DSub(1, Signed(p[1][1], x[1]))))
    [] kind = "binary_perceptron" -> V1(Pos(DNeg(Signed(p[1][1], x[1]))))
    [] kind = "multiclass_logistic" -> V1(DSub(LSE(x), At(x, p[1][1])))
    [] kind = "multiclass_sparsemax" -> V1(DSub(Gini(x), At(x, p[1][1])))
    [] kind = "multiclass_hinge" -> V1(DSub(MaxOf([i \in 1..Len(x) |-> IF DEq(p[1][1], i - 1) THEN x[i] ELSE DAdd(x[i], 1)]), At(x, p[1][1])))
    [] kind = "multiclass_perceptron" -> V1(DSub(MaxOf(x), At(x, p[1][1])))
    [] kind = "fy_lse" -> V1(DSub(LSE(x), VDot(p[1], x)))
    [] kind = "fy_max" -> V1(DSub(MaxOf(x), VDot(p[1], x)))
    [] kind = "fy_gini" -> V1(DSub(DAdd(Gini(x), p[2][1]), VDot(p[1], x)))
    [] kind = "least_squares" -> V1(LeastSq(x, p))
    [] kind = "ridge_regression" -> V1(DAdd(LeastSq(x, p), Ridge(x, p)))
    [] kind = "binary_logreg" -> V1(BinLog(x, p))
    [] kind \in {"multiclass_logreg", "multiclass_logreg_with_intercept"} -> V1(MeanLogistic(x, p))
    [] kind \in {"l2_multiclass_logreg", "l2_multiclass_logreg_with_intercept"} -> V1(DAdd(MeanLogistic(x, p), Ridge(x, p)))
    [] kind = "multiclass_linear_svm_dual" -> V1(SvmDual(x, p))
    \* linear operator helpers; p = rows of A (then delta for updates)
    [] kind = "matvec" -> MVec(p, x)
    [] kind = "rmatvec" -> MTVec(p, x)

\* second difference of an objective along (coordinate block) direction d
Curv(kind, x, p, d) ==
  LET h == "1E-9" IN
  DDiv(DAdd(DSub(L(kind, VAxpy(h, d, x), p)[1], DMul(2, L(kind, x, p)[1])), L(kind, VAxpy("-1E-9", d, x), p)[1]), "1E-18")
=============================================================================
