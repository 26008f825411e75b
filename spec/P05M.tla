---- MODULE P05M ----
(* Design model of the lookup: binary search for the insertion point, window of at most W samples around it, error outside.   *)
(* Explored for every trajectory length and every query position (2j = at sample j, 2j+1 = between j and j+1) and every grid. *)
EXTENDS P05, Json
CONSTANTS MaxN, W
VARIABLES n, q, lo, hi, phase, win
vars == <<n, q, lo, hi, phase, win>>
Pos(j) == 2 * j
Init == n \in 1..MaxN /\ q \in 1..(2 * MaxN + 1) /\ q <= 2 * n + 1 /\ lo = 1 /\ hi = n + 1 /\ phase = "check" /\ win = <<0, 0>>
Check == /\ phase = "check"
         /\ phase' = IF q < Pos(1) \/ q > Pos(n) THEN "error" ELSE "search"
         /\ UNCHANGED <<n, q, lo, hi, win>>
\* binary search for the first index whose position is >= q
Search == /\ phase = "search" /\ lo < hi
          /\ LET m == (lo + hi) \div 2 IN IF Pos(m) < q THEN lo' = m + 1 /\ hi' = hi ELSE hi' = m /\ lo' = lo
          /\ UNCHANGED <<n, q, phase, win>>
Decide == /\ phase = "search" /\ lo = hi
          /\ IF Pos(lo) = q THEN phase' = "exact" /\ win' = <<lo, lo>>
             ELSE LET z == lo - 1  half == W \div 2 IN
                  LET f0 == IF z > half THEN z - half ELSE 0 IN
                  LET l == IF f0 + W < n THEN f0 + W ELSE n IN
                  LET f == IF l = n THEN (IF l > W THEN l - W ELSE 0) ELSE f0 IN
                  phase' = "interp" /\ win' = <<f + 1, l>>
          /\ UNCHANGED <<n, q, lo, hi>>
Next == Check \/ Search \/ Decide
Spec == Init /\ [][Next]_vars
Eps == [j \in 1..n |-> <<Pos(j), 0>>]
St == [eps |-> Eps, bits |-> [j \in 1..n |-> ToString(j)], tol |-> 0]
Ev == IF phase = "error" THEN [k |-> "at", q |-> <<q, 0>>, ok |-> FALSE]
      ELSE [k |-> "at", q |-> <<q, 0>>, ok |-> TRUE, ep |-> <<q, 0>>, bits |-> ToString(win[1]), dr |-> 0, dv |-> 0, dm |-> 0, rest |-> TRUE]
Done == phase \in {"error", "exact", "interp"}
Conforms == Done => PFails(St, Ev) = {}
(* the interpolation window brackets the query, has at most W samples, and at least min(n, W) of them *)
Window == phase = "interp" => /\ Pos(win[1]) < q /\ q < Pos(win[2]) /\ win[2] - win[1] + 1 <= W
                              /\ win[2] - win[1] + 1 >= (IF n < W THEN n ELSE W) /\ win[1] >= 1 /\ win[2] <= n
GridOk == \A a \in 0..4 : \A b \in 0..6 : \A d \in 1..3 :
            LET g == Grid(<<a, 0>>, <<b, 0>>, <<d, 0>>) IN TIncreasing(g) /\ (a <= b <=> Len(g) > 0) /\ Len(g) = (IF a > b THEN 0 ELSE ((b - a) \div d) + 1)
Emit == Done => PrintT("SCEN " \o ToJson([n |-> n, q |-> q]))
====
