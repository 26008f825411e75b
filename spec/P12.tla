---- MODULE P12 ----
(* Smoothing and queries of a filter solution.  sol: the entries of a solution (t, tu: a time update, trk, ty: measurement types, *)
(* rej, in: ratio within the asked threshold), of which the first n are the solution and the rest a second one to merge with.     *)
(* Answers are given as indices into sol (0: an entry which is not one of them, or with its parts mixed up).                      *)
EXTENDS Time, FiniteSets, TLC
PBegin(ev) == [sol |-> <<>>, n |-> 0]
RECURSIVE Pick(_, _, _, _)
\* indices from i to n of the entries satisfying P, in order
Pick(P(_), s, i, n) == IF i > n THEN <<>> ELSE (IF P(s[i]) THEN <<i>> ELSE <<>>) \o Pick(P, s, i + 1, n)
Has(ty, x) == \E j \in 1..Len(ty) : ty[j] = x
Msr(e) == ~e.tu
Want(s, ev) ==
  CASE ev.op = "drop" -> Pick(Msr, s.sol, 1, s.n)
    [] ev.op = "type" -> LET P(e) == ~e.tu /\ Has(e.ty, ev.ty) IN Pick(P, s.sol, 1, s.n)
    [] ev.op = "trk" -> LET P(e) == ~e.tu /\ e.trk = ev.trk IN Pick(P, s.sol, 1, s.n)
    [] ev.op = "excl" -> LET P(e) == e.tu \/ e.trk # ev.trk IN Pick(P, s.sol, 1, s.n)
    [] ev.op = "acc" -> LET P(e) == ~e.tu /\ ~e.rej IN Pick(P, s.sol, 1, s.n)
    [] ev.op = "rej" -> LET P(e) == ~e.tu /\ e.rej IN Pick(P, s.sol, 1, s.n)
    [] ev.op = "part" -> LET P(e) == ~e.tu /\ e.trk = ev.trk /\ Has(e.ty, ev.ty) IN Pick(P, s.sol, 1, s.n)
    [] OTHER -> <<>>
Sub(out, lo, hi) == SelectSeq(out, LAMBDA x : lo <= x /\ x <= hi)
Merged(s, out) == /\ Len(out) = Len(s.sol)
                  /\ Sub(out, 1, s.n) = [i \in 1..s.n |-> i]
                  /\ Sub(out, s.n + 1, Len(s.sol)) = [i \in 1..Len(s.sol) - s.n |-> s.n + i]
                  /\ \A i \in 1..Len(out) - 1 : TLe(s.sol[out[i]].t, s.sol[out[i+1]].t)
Pairs(s) == UNION {{<<s.sol[i].trk, s.sol[i].ty[j]>> : j \in 1..Len(s.sol[i].ty)} : i \in {k \in 1..s.n : ~s.sol[k].tu}}
RECURSIVE Ts(_, _)
Ts(s, i) == IF i > s.n THEN <<>> ELSE (IF i > 1 /\ s.sol[i-1].t = s.sol[i].t THEN <<>> ELSE <<s.sol[i].t>>) \o Ts(s, i + 1)
PFails(s, ev) ==
  CASE ev.k = "err" -> {"spurious-error"}
    [] ev.k = "q" -> IF ev.op = "merge" THEN (IF Merged(s, ev.out) THEN {} ELSE {"merge"})
                     ELSE IF ev.out = Want(s, ev) THEN {} ELSE {"query-" \o ev.op}
    [] ev.k = "uniq" -> IF {<<ev.out[i][1], ev.out[i][2]>> : i \in 1..Len(ev.out)} = Pairs(s) /\ Len(ev.out) = Cardinality(Pairs(s)) THEN {} ELSE {"unique"}
    [] ev.k = "at" -> LET hit == {i \in 1..s.n : s.sol[i].t = ev.t} IN
                      IF (ev.out = 0 /\ hit = {}) \/ ev.out \in hit THEN {} ELSE {"at"}
    [] ev.k = "traj" -> IF ev.out = Ts(s, 1) THEN {} ELSE {"trajectory-epochs"}
    [] ev.k = "stat" -> IF ev.e > 1000 THEN {"statistic-" \o ev.op} ELSE {}
    [] ev.k = "frac" -> LET m == {i \in 1..s.n : ~s.sol[i].tu}  w == {i \in m : s.sol[i].in} IN
                        IF m = {} THEN (IF ev.ok THEN {"fraction-of-nothing"} ELSE {})
                        ELSE IF ev.ok /\ ev.ppm - (1000000 * Cardinality(w)) \div Cardinality(m) \in -1..1 THEN {} ELSE {"fraction-within-threshold"}
    [] ev.k = "smooth" -> (IF ev.n # s.n \/ ev.nr # s.n \/ ev.ng # s.n \/ ev.nf # s.n THEN {"smoothed-length"} ELSE {}) \cup (IF ev.gains THEN {"smoothed-gains"} ELSE {})
                          \cup (IF s.n >= 2 /\ ev.ratios # s.n - 1 THEN {"smoother-ratios"} ELSE {})
    [] ev.k = "sm" -> (IF ev.t # s.sol[ev.i].t THEN {"smoothed-epoch"} ELSE {})
                      \cup (IF ev.tu # s.sol[ev.i].tu \/ ~ev.same THEN {"smoothed-measurement"} ELSE {})
                      \cup (IF ev.i = s.n /\ ~ev.last THEN {"smoothing-changed-the-last-estimate"} ELSE {})
                      \cup (IF ev.xe > 1000 THEN {"smoothed-state"} ELSE {})
                      \cup (IF ev.ce > 1000 THEN {"smoothed-covariance"} ELSE {})
                      \cup (IF ev.post > 10 THEN {"smoothed-residual"} ELSE {})
                      \cup (IF ev.fs > 1000 THEN {"filter-smoother-ratio"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == IF ev.k = "sol" THEN [sol |-> ev.sol, n |-> ev.n] ELSE s
====
