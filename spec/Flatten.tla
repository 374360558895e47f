------------------------------- MODULE Flatten -------------------------------
(***************************************************************************)
(* The bridge between trees of arrays and the vectors SciPy works on.      *)
(* A tree is the sequence of its leaves in canonical order, a leaf is      *)
(* [shape, vals] with the entries in row-major order.  Also the objectives *)
(* and residuals the wrappers are exercised with, on the flat vector.      *)
(***************************************************************************)
EXTENDS Dec
Size(shape) == LET F[i \in 0..Len(shape)] == IF i = 0 THEN 1 ELSE shape[i] * F[i-1] IN F[Len(shape)]
Flat(t) == LET F[i \in 0..Len(t)] == IF i = 0 THEN <<>> ELSE F[i-1] \o t[i].vals IN F[Len(t)]
Offset(shapes, i) == LET F[k \in 0..Len(shapes)] == IF k = 0 THEN 0 ELSE Size(shapes[k]) + F[k-1] IN F[i-1]
Unflat(shapes, v) == [i \in 1..Len(shapes) |-> [shape |-> shapes[i], vals |-> SubSeq(v, Offset(shapes, i) + 1, Offset(shapes, i) + Size(shapes[i]))]]
Shapes(t) == [i \in 1..Len(t) |-> t[i].shape]
\* blocks[i][j]: derivative of output leaf i by input leaf j, as a matrix
Assemble(blocks) ==
  LET Beside(r) == LET F[j \in 0..Len(r)] == IF j = 0 THEN [k \in 1..Len(r[1]) |-> <<>>] ELSE [k \in 1..Len(r[1]) |-> F[j-1][k] \o r[j][k]] IN F[Len(r)]
      G[i \in 0..Len(blocks)] == IF i = 0 THEN <<>> ELSE G[i-1] \o Beside(blocks[i])
  IN G[Len(blocks)]

(* -------------------- problems, on the flat vector x -------------------- *)
\* o = [w, a, s, t]
Cube(v) == DMul(v, DMul(v, v))
Nxt(i, n) == (i % n) + 1
Residual(o, x) == [i \in 1..Len(x) |-> DSub(DAdd(DAdd(DMul(o.w[i], x[i]), DMul(o.s, Cube(x[i]))), DMul(o.t, x[Nxt(i, Len(x))])), o.a[i])]
Extra(o, x) == <<DSub(DMul(x[1], x[Len(x)]), o.s)>>
Objective(o, x) ==
  LET n == Len(x) IN
  VSum([i \in 1..n |-> DAdd(DAdd(DMul("0.5", DMul(o.w[i], DSq(DSub(x[i], o.a[i])))), DMul(DMul("0.25", o.s), DSq(DSq(x[i])))),
                            IF i < n THEN DMul(o.t, DMul(x[i], x[i+1])) ELSE "0")])
Slope(o, x) ==
  LET n == Len(x) IN
  [i \in 1..n |-> DAdd(DAdd(DMul(o.w[i], DSub(x[i], o.a[i])), DMul(o.s, Cube(x[i]))),
                       DAdd(IF i < n THEN DMul(o.t, x[i+1]) ELSE "0", IF i > 1 THEN DMul(o.t, x[i-1]) ELSE "0"))]
\* losses of SciPy's least squares, of the squared scaled residual z
Rho(loss, z) == CASE loss = "linear" -> z
  [] loss = "soft_l1" -> DMul(2, DSub(DSqrt(DAdd(1, z)), 1))
  [] loss = "huber" -> IF DLe(z, 1) THEN z ELSE DSub(DMul(2, DSqrt(z)), 1)
  [] loss = "cauchy" -> DLog(DAdd(1, z))
Cost(loss, f, r) == DMul("0.5", DMul(DSq(f), VSum([i \in 1..Len(r) |-> Rho(loss, DSq(DDiv(r[i], f)))])))
=============================================================================
