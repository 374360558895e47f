----------------------------- MODULE TraceProj -----------------------------
(* Calls of jaxopt.projection functions against Proj (property C12).        *)
EXTENDS TraceLib, Proj

PMax(p) == LET F[i \in 0..Len(p)] == IF i = 0 THEN "0" ELSE DMax(F[i-1], IF VFin(p[i]) THEN VMaxAbs(p[i]) ELSE "0") IN F[Len(p)]
Atol(s) == IF s.kind = "box_section" THEN "5E-3" ELSE DMul("1E-10", DAdd(1, DAdd(VMaxAbs(s.x), PMax(s.p))))

Point(s) ==
  [nearest |-> VClose(s.y, P(s.kind, s.x, s.p), 0, Atol(s)),
   in_set |-> s.kind = "box_section" =>
                /\ \A i \in Idx(s.y) : DGe(s.y[i], s.p[1][i]) /\ DLe(s.y[i], s.p[2][i])
                /\ DClose(VDot(s.p[3], s.y), s.p[4][1], "1E-9", "1.1E-3")]

Smooth(s) ==
  IF s.kind = "box_section" THEN BoxSectionMargin(s.x, s.p[1], s.p[2], s.p[3], s.p[4][1], "2E-2")
  ELSE NoKink(s.kind, s.x, s.dx, s.p, s.dp)
DTol(s) == IF s.kind = "box_section" THEN "5E-3" ELSE "1E-6"
Deriv(s) ==
  LET sm == Smooth(s)  D == Fwd(s.kind, s.x, s.dx, s.p, s.dp) IN
  [jvp |-> sm /\ s.dy # <<>> => VClose(s.dy, D, "1E-6", "1E-7"),
   \* <w, J d> = <J^T w, d>
   vjp |-> sm => DClose(VDot(s.w, D), DAdd(VDot(s.gx, s.dx), VDot(s.gp, s.dpf)), DTol(s), DTol(s))]

Poly(s) ==
  LET q == Polyhedron(s.x, s.A, s.b, s.G, s.h, "1E-25")
  IN [verdict |-> s.raised => q = <<>>,
      nearest |-> ~s.raised => q # <<>> /\ VClose(s.y, q, 0, s.tol)]
Sparse(s) ==
  [in_set |-> /\ DClose(VSum(s.y), s.p[1][1], "1E-10", "1E-10") /\ \A i \in Idx(s.y) : DGe(s.y[i], 0)
              /\ Cardinality({i \in Idx(s.y) : ~DEq(s.y[i], 0)}) <= s.k,
   nearest |-> DLe(SqDist(s.x, s.y), DAdd(SparseSimplexDist(s.x, s.k, s.p[1][1]), DMul("1E-9", DAdd(1, VSqNorm(s.x)))))]
Transport(s) ==
  LET V == IF s.perm THEN PermVertices(Len(s.a)) ELSE Vertices(s.a, s.b) IN
  [marginals |-> Marginals(s.y, s.a, s.b, s.tol),
   positive |-> \A i \in Idx(s.y) : \A j \in Idx(s.y[1]) : DGe(s.y[i][j], 0),
   nearest |-> IF s.kl THEN KLCert(s.x, s.y, "1E-9") ELSE Nearest(Flat(s.x), Flat(s.y), V, s.vtol)]
Check(s) ==  \* feasibility check of box_section: raises exactly on empty sets
  [raises |-> s.raised = (DGt(VDot(s.p[3], s.p[1]), s.p[4][1]) \/ DLt(VDot(s.p[3], s.p[2]), s.p[4][1]))]

ProjClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> FALSE]
  ELSE IF ~s.struct THEN [structure |-> FALSE]
  ELSE CASE s.op = "point" -> Point(s)
         [] s.op = "deriv" -> Deriv(s)
         [] s.op = "poly" -> Poly(s)
         [] s.op = "sparse" -> Sparse(s)
         [] s.op = "transport" -> Transport(s)
         [] s.op = "check" -> Check(s)
=============================================================================
