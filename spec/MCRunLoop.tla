----------------------------- MODULE MCRunLoop -----------------------------
EXTENDS RunLoop, TLC, Json
\* complete behaviours, as scripts for the real solver
Emit == phase = "done" =>
  PrintT("GEN|" \o ToJson([maxiter |-> maxiter, stopls |-> stopls, tol |-> Tol,
                           errs |-> es, fails |-> fs, updates |-> k]))
=============================================================================
