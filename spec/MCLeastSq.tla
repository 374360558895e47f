------------------------------ MODULE MCLeastSq -----------------------------
(* LM as a state machine on one-parameter residuals r(p) whose trial values  *)
(* may be adversarial: the environment chooses, per trial, whether the true  *)
(* residual there is the model's, larger, smaller, or not finite.  Safety:   *)
(* the loss never increases and stays finite, damping stays in its range,    *)
(* j rejections in a row multiply mu by 2^(j(j+1)/2), a rejection changes    *)
(* nothing else.                                                             *)
EXTENDS LeastSq, Naturals, TLC
CONSTANTS K, Bug
VARIABLES J, r, mu, nu, rej, muAtAccept, k
vars == <<J, r, mu, nu, rej, muAtAccept, k>>
g == DMul(J, r)
v == DDiv(g, DAdd(DMul(J, J), mu))
d == DNeg(v)
Env == {"0", "0.5", "0.999", "1.5", "nan", "inf"}
Init == /\ J \in {"1", "-0.5", "3"} /\ r \in {"1", "-2"} /\ mu \in {"1E-3", "1", "3E+9"} /\ nu = "2"
        /\ rej = 0 /\ muAtAccept = mu /\ k = 0
Next ==
  /\ k < K /\ k' = k + 1
  /\ \E c \in Env, J2 \in {"1", "-0.5"} :
       LET rt == DMul(c, r)
           F == Loss(<<r>>)  Ft == Loss(<<rt>>)
           gain == Gain(F, Ft, <<d>>, mu, <<g>>)
           ok == IF Bug THEN ~DLe(gain, 0) ELSE DLt(0, gain)
       IN IF ok
          THEN /\ J' = J2 /\ r' = rt /\ nu' = "2" /\ mu' = MuAccept(mu, gain) /\ rej' = 0 /\ muAtAccept' = mu'
          ELSE /\ mu' = MuReject(mu, nu) /\ nu' = NuReject(nu) /\ rej' = rej + 1 /\ UNCHANGED <<J, r, muAtAccept>>
Pow[i \in 0..40] == IF i = 0 THEN 1 ELSE 2 * Pow[i-1]
LossDecreases == [][DLe(Loss(<<r'>>), Loss(<<r>>)) /\ (rej' = 0 => DLt(Loss(<<r'>>), Loss(<<r>>)))]_vars
Finite == DIsFin(r) /\ DIsFin(mu)
Damping == DLe(0, mu) /\ DLe(mu, DMul(2, MuMax)) /\ DLe(2, nu)
Escalates == DClose(mu, IF rej = 0 THEN muAtAccept ELSE DMin(DMul(muAtAccept, Pow[(rej * (rej + 1)) \div 2]), MuMax), "1E-30", 0)
Factor == [][rej' = 0 => DLe(DMul("0.3333333333", mu), mu') /\ DLe(mu', DMul(2, mu))]_vars
PredictedPositive == ~DEq(g, 0) => DLt(0, Predicted(<<d>>, mu, <<g>>))
=============================================================================
