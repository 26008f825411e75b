---- MODULE P10M ----
(* Design model: a scalar Kalman filter in exact integer arithmetic.  The estimate is s/i with information i; a measurement z of  *)
(* weight w has innovation (z i - s)/i and variance (i + w)/(i w), and is rejected when its square exceeds thr^2 times that.     *)
EXTENDS P10, Json
CONSTANTS N, Ws, Thr
Zs == {-30, -3, -1, 0, 2, 25}
VARIABLES i, s, hist
vars == <<i, s, hist>>
Init == i = 1 /\ s = 0 /\ hist = <<>>
Sq(x) == x * x
Rejects(z, w) == Thr > 0 /\ Sq(z * i - s) * w > Sq(Thr) * i * (i + w)
Step(z, w) == LET r == Rejects(z, w) IN
  /\ Len(hist) < N
  /\ i' = IF r THEN i ELSE i + w
  /\ s' = IF r THEN s ELSE s + w * z
  /\ hist' = Append(hist, [z |-> z, w |-> w, rej |-> r])
Next == \E z \in Zs, w \in Ws : Step(z, w)
Spec == Init /\ [][Next]_vars
RECURSIVE SumW(_), SumWZ(_)
SumW(h) == IF h = <<>> THEN 0 ELSE (IF Head(h).rej THEN 0 ELSE Head(h).w) + SumW(Tail(h))
SumWZ(h) == IF h = <<>> THEN 0 ELSE (IF Head(h).rej THEN 0 ELSE Head(h).w * Head(h).z) + SumWZ(Tail(h))
(* the estimate is the weighted mean of the prior and the accepted measurements: rejected ones leave no trace, order is immaterial *)
Optimal == i = 1 + SumW(hist) /\ s = SumWZ(hist)
Informed == [][i' >= i]_vars
NeverRejectsWithoutCriterion == Thr = 0 => \A n \in 1..Len(hist) : ~hist[n].rej
(* an entry of such a filter is a behaviour of the specification, and the opposite decision is not *)
E(h) == [k |-> "msr", sing |-> FALSE, cb |-> 0, psd |-> 0, sym |-> 0, pre |-> 0, amb |-> 0, far |-> FALSE, rre |-> 0, xe |-> 0, ce |-> 0, shrink |-> 0, post |-> 0,
         ratio |-> IF h.rej THEN 3000000 ELSE 1000000, rej |-> h.rej]
S0 == [thr |-> IF Thr > 0 THEN 2000000 ELSE -1, force |-> FALSE]
Conforms == \A n \in 1..Len(hist) : PFails(S0, E(hist[n])) = {} /\ PFails(S0, [E(hist[n]) EXCEPT !.rej = ~hist[n].rej]) # {}
Emit == Len(hist) = N => PrintT("SCEN " \o ToJson([pat |-> [n \in 1..N |-> IF hist[n].rej THEN 1 ELSE 0], zs |-> [n \in 1..N |-> hist[n].z]]))
====
