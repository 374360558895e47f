------------------------------ MODULE TreeOps ------------------------------
(***************************************************************************)
(* Tree arithmetic is arithmetic on the concatenated vector of all leaves. *)
(* A complex vector is a pair <<re, im>> of vectors of numbers.            *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences
Re(z) == z[1]
Im(z) == z[2]
N(z) == Len(z[1])
Mul(a, b) == \* elementwise
  << [i \in 1..N(a) |-> DSub(DMul(Re(a)[i], Re(b)[i]), DMul(Im(a)[i], Im(b)[i]))],
     [i \in 1..N(a) |-> DAdd(DMul(Re(a)[i], Im(b)[i]), DMul(Im(a)[i], Re(b)[i]))] >>
Conj(a) == <<Re(a), VScale(-1, Im(a))>>
AbsSq(a) == VAdd(Mul(a, Conj(a))[1], VZero(N(a)))
Recip(a) == LET q == AbsSq(a) IN << [i \in 1..N(a) |-> DDiv(Re(a)[i], q[i])], [i \in 1..N(a) |-> DDiv(DNeg(Im(a)[i]), q[i])] >>
Rep(c, n) == << [i \in 1..n |-> Re(c)[1]], [i \in 1..n |-> Im(c)[1]] >>   \* scalar c, n copies
Add(a, b) == <<VAdd(Re(a), Re(b)), VAdd(Im(a), Im(b))>>
Sub(a, b) == <<VSub(Re(a), Re(b)), VSub(Im(a), Im(b))>>
Sum(a) == << <<VSum(Re(a))>>, <<VSum(Im(a))>> >>
Const(v, n) == << [i \in 1..n |-> v], VZero(n) >>
Max(x) == LET M[i \in 1..Len(x)] == IF i = 1 THEN x[1] ELSE DMax(M[i-1], x[i]) IN M[Len(x)]
Real(v) == <<v, VZero(Len(v))>>
Slice(a, o, n) == << SubSeq(Re(a), o + 1, o + n), SubSeq(Im(a), o + 1, o + n) >>
VDotC(a, b) == Sum(Mul(Conj(a), b))

\* x, y: operands; c: a scalar; cond: Booleans as 0/1
Op(op, x, y, c, cond) ==
  CASE op = "add" -> Add(x, y)
    [] op = "sub" -> Sub(x, y)
    [] op = "mul" -> Mul(x, y)
    [] op = "div" -> Mul(x, Recip(y))
    [] op = "scalar_mul" -> Mul(Rep(c, N(x)), x)
    [] op = "add_scalar_mul" -> Add(x, Mul(Rep(c, N(y)), y))
    [] op = "vdot" -> VDotC(x, y)
    [] op = "vdot_real" -> Real(Re(VDotC(x, y)))
    [] op = "sum" -> Sum(x)
    [] op = "sqnorm" -> Real(<<VSum(AbsSq(x))>>)
    [] op = "norm" -> Real(<<DSqrt(VSum(AbsSq(x)))>>)
    [] op = "inf_norm" -> Real(<<DSqrt(Max(AbsSq(x)))>>)
    [] op = "zeros_like" -> Const("0", N(x))
    [] op = "ones_like" -> Const("1", N(x))
    [] op = "negative" -> Sub(Const("0", N(x)), x)
    [] op = "reciproqual" -> Recip(x)
    [] op = "conj" -> Conj(x)
    [] op = "real" -> Real(Re(x))
    [] op = "imag" -> Real(Im(x))
    [] op = "where" -> << [i \in 1..N(x) |-> IF cond[i] = 1 THEN Re(x)[i] ELSE Re(y)[i]],
                          [i \in 1..N(x) |-> IF cond[i] = 1 THEN Im(x)[i] ELSE Im(y)[i]] >>
ElementWise == {"add", "sub", "mul", "div", "scalar_mul", "add_scalar_mul", "zeros_like", "ones_like", "negative",
                "reciproqual", "conj", "real", "imag", "where"}
\* mean over leaves of the mean of each leaf (sizes = sizes of the leaves, in order)
Offsets(sizes) == LET F[i \in 1..Len(sizes)] == IF i = 1 THEN 0 ELSE F[i-1] + sizes[i-1] IN F
TreeMean(x, sizes) ==
  LET off == Offsets(sizes)
      m == [i \in 1..Len(sizes) |-> VScale(DDiv(1, sizes[i]), VAdd(Sum(Slice(x, off[i], sizes[i]))[1], <<"0">>))[1]]
  IN DDiv(VSum(m), Len(sizes))
\* leaf-wise inner products (tree_dot of vectors)
TreeDot(x, y, sizes) ==
  LET off == Offsets(sizes)
  IN [i \in 1..Len(sizes) |-> VDot(SubSeq(Re(x), off[i] + 1, off[i] + sizes[i]), SubSeq(Re(y), off[i] + 1, off[i] + sizes[i]))]
=============================================================================
