------------------------------- MODULE MCZoom -------------------------------
(* The zoom search against every objective: at each trial the environment    *)
(* picks value and slope from a grid (or nan), and the interpolation any     *)
(* allowed trial point of three.  Invariants of Algorithms 3.5 / 3.6.        *)
EXTENDS LineSearch, TLC
CONSTANTS KMax, Vals, Slopes, TMax
VARIABLES z, last
c == [c1 |-> "0.1", c2 |-> "0.5", c3 |-> "0.01", tol |-> "0", factor |-> "2", max |-> TMax, maxiter |-> KMax, f0 |-> "0", s0 |-> "-1"]
Init == z = ZInit(c) /\ last = <<"0", "0", "-1">>
Points == IF z.phase = "search" THEN {SearchT(c, z, "1")}
          ELSE {DAdd(T(z.low), DMul(w, DSub(T(z.high), T(z.low)))) : w \in {"0.1", "0.5", "0.9"}}
Next == /\ ~z.done /\ ~z.failed
        /\ \E t \in Points, f \in Vals, s \in Slopes :
             /\ last' = <<t, f, s>>
             /\ z' = ZNext(c, z, <<t, f, s>>, "1E-6")
Spec == Init /\ [][Next]_<<z, last>>
Positive == z.k > 0 => DGt(T(last), 0) /\ DLe(T(last), TMax)
Inside == (z.phase = "zoom" /\ ~z.done) => ~DEq(T(z.low), T(z.high))
\* the kept end always has sufficient decrease (or is the start)
LowGood == z.phase = "zoom" => (DEq(T(z.low), 0) \/ DLe(DecreaseErr(c, z.low), 0))
SafeGood == DGe(z.safe, T(z.low)) \/ ~(z.phase = "zoom")
Success == z.done => IF z.atmax THEN DEq(T(last), TMax) /\ DLe(DecreaseErr(c, last), 0) ELSE Satisfied("zoom", c, last)
Failure == z.failed => ~Satisfied("zoom", c, last)
Bounded == z.k <= KMax
NoBoth == ~(z.done /\ z.failed)
Result == (z.done \/ z.failed) => LET r == ZResult(z, last) IN DGe(r, 0) /\ DLe(r, TMax) /\ (DEq(r, 0) => z.failed /\ z.outside)
=============================================================================
