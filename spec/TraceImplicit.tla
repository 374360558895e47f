---------------------------- MODULE TraceImplicit ----------------------------
(* Recorded derivatives of decorated solvers against Implicit.tla.             *)
(*  "call"  a call form of Binding.tla was executed and differentiated: which   *)
(*          of the arguments were given, the cotangents that came back          *)
(*  "prod"  root_vjp and root_jvp at the same root                              *)
EXTENDS TraceLib
Im == INSTANCE Implicit
R(s) == [Q |-> s.Q, a |-> s.a, b |-> s.b, c |-> s.c, x |-> s.x]
Unflat(m, n) == [i \in 1..n |-> [j \in 1..n |-> m[(i-1)*n + j]]]
Flat2(M) == [k \in 1..(Len(M)*Len(M)) |-> M[((k-1) \div Len(M)) + 1][((k-1) % Len(M)) + 1]]
ClosebyR(obs, want, rtol) == Len(obs) = Len(want) /\ VClose(obs, want, "0", DMul(rtol, DAdd(1, VMaxAbs(want))))
Wanted(s) == LET u == Im!Adjoint(R(s), s.v) g == Im!Cot(R(s), u) IN
             [a |-> g.a, b |-> <<g.b>>, c |-> g.c, Q |-> Flat2(g.Q)]
D(s) == [Q |-> Unflat(s.d.Q, Len(s.x)), a |-> s.d.a, b |-> s.d.b[1], c |-> s.d.c]
ImplicitClauses(t, i) ==
  LET s == t.steps[i] IN
  IF s.exc # "" THEN [no_exception |-> s.gap /\ s.refused]
  ELSE LET w == Wanted(s) IN
       [root |-> VMaxAbs(Im!Fx(R(s))) # "nan" /\ DLe(VMaxAbs(Im!Fx(R(s))), "1E-9"),
        value |-> VClose(s.got, s.x, "0", "0"),
        products |-> \A k \in DOMAIN s.g : ClosebyR(s.g[k], w[k], s.rtol),
        init_zero |-> \A k \in 1..Len(s.ginit) : DEq(s.ginit[k], 0),
        aux |-> s.aux_kept,
        structure |-> s.structure,
        tangent |-> Len(s.jvp) = 0 \/ ClosebyR(s.jvp, Im!Tangent(R(s), D(s)), s.rtol)]
=============================================================================
