------------------------------ MODULE MCBisect ------------------------------
EXTENDS Bisect, TLC, Json
Gen == k = K => PrintT("GEN|" \o ToJson([dir |-> dir, k |-> K, visited |-> visited]))
=============================================================================
