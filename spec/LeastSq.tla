------------------------------- MODULE LeastSq ------------------------------
(***************************************************************************)
(* Gauss-Newton and Levenberg-Marquardt steps (Madsen & Nielsen 6.18).      *)
(*   J : Jacobian (m rows), r : residual, H : m Hessians, mu, nu : damping  *)
(***************************************************************************)
EXTENDS Dec
MuMax == "4294967296"
AddDiag(A, c) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN DAdd(A[i][j], c) ELSE A[i][j]]]
Col(J, j) == [i \in 1..Len(J) |-> J[i][j]]
Gram(J) == LET n == Len(J[1])  C == [j \in 1..n |-> Col(J, j)] IN [i \in 1..n |-> [j \in 1..n |-> VDot(C[i], C[j])]]
Grad(J, r) == MTVec(J, r)
Loss(r) == DMul("0.5", VSqNorm(r))
Mu0(J, tau) == LET G == Gram(J)
                   M[i \in 1..Len(G)] == IF i = 1 THEN G[1][1] ELSE DMax(M[i-1], G[i][i])
               IN DMul(tau, M[Len(G)])
Velocity(J, r, mu) == MSolve(AddDiag(Gram(J), mu), Grad(J, r))
Rpp(H, v) == [i \in 1..Len(H) |-> VDot(v, MVec(H[i], v))]
Accel(J, H, mu, v) == MSolve(AddDiag(Gram(J), mu), MTVec(J, Rpp(H, v)))
Trial(v, a) == VScale("-1", VAxpy("0.5", a, v))
Predicted(delta, mu, g) == DMul("0.5", VDot(delta, VSub(VScale(mu, delta), g)))
Gain(F, Fnew, delta, mu, g) == DDiv(DSub(F, Fnew), Predicted(delta, mu, g))
Cube(x) == DMul(x, DMul(x, x))
MuAccept(mu, gain) == DMul(mu, DMax(DDiv(1, 3), DSub(1, Cube(DSub(DMul(2, gain), 1)))))
MuReject(mu, nu) == DMin(DMul(mu, nu), MuMax)
NuReject(nu) == DMin(DMul(2, nu), MuMax)
=============================================================================
