----------------------------- MODULE TraceTree -----------------------------
EXTENDS TraceLib, TreeOps
Eq(a, b, r, z) == VClose(a[1], b[1], r, z) /\ VClose(a[2], b[2], r, z)
\* sums cancel: the tolerance is relative to the size of the operands
Z(s) == DMul("1E-11", DMul(DAdd(1, DAdd(VMaxAbs(s.x[1]), VMaxAbs(s.x[2]))), DAdd(1, DAdd(VMaxAbs(s.y[1]), DAdd(VMaxAbs(s.y[2]), VMaxAbs(s.c[1]))))))
TreeClauses(t, i) ==
  LET s == t.steps[i] IN
  CASE s.op = "raises" -> [rejects |-> s.raised = s.want]
    [] s.exc # "" -> [no_exception |-> FALSE]
    [] ~s.struct -> [structure |-> FALSE]
    [] s.op = "gram" -> [value |-> \A a, b \in 1..Len(s.rows) : DClose(s.out[a][b], VDot(s.rows[a], s.rows[b]), "1E-11", "1E-11")]
    [] s.op = "average" -> [value |-> VClose(s.out[1], MTVec(s.rows, s.w), "1E-11", "1E-11")]
    [] s.op = "mean" -> [value |-> DClose(s.out[1][1], TreeMean(s.x, s.sizes), "1E-11", "1E-11")]
    [] s.op = "dot" -> [value |-> VClose(s.out[1], TreeDot(s.x, s.y, s.sizes), "1E-11", "1E-11")]
    [] OTHER -> [value |-> Eq(s.out, Op(s.op, s.x, s.y, s.c, s.cond), "1E-11", Z(s))]
=============================================================================
