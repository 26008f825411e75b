---- MODULE P11 ----
(* Which state noise compensation applies at each update of the filter, and what it adds.                                        *)
(* noise[i]: has (a start time is set), start (time since the initial estimate), dis (disable time).  An entry at t, gap after    *)
(* the previous entry, comes with the mismatch (1e-6 of the predicted variance) of its predicted covariance against Phi P Phi'    *)
(* alone (none) and against Phi P Phi' plus the contribution of each noise (cand), each evaluated independently.                  *)
EXTENDS Time, TLC
PBegin(ev) == [noise |-> ev.noise, t |-> <<0, 0>>]
Applies(n, t, gap) == (n.has => TLe(n.start, t)) /\ TLe(gap, n.dis)
\* index of the noise which applies; 0 when there is none
RECURSIVE Last(_, _, _, _)
Last(q, i, t, gap) == IF i = 0 THEN 0 ELSE IF Applies(q[i], t, gap) THEN i ELSE Last(q, i - 1, t, gap)
Chosen(s, ev) == Last(s.noise, Len(s.noise), ev.t, TSub(ev.t, s.t))
Tol == 50
PFails(s, ev) ==
  CASE ev.k = "err" -> {"spurious-error"}
    [] ev.k = "step" ->
       LET c == Chosen(s, ev)  e == IF c = 0 THEN ev.none ELSE ev.cand[c] IN
       (IF e <= Tol THEN {}
        ELSE IF c = 0 THEN {"noise-added-where-none-applies"}
        ELSE IF ev.none <= Tol THEN {"applicable-noise-not-added"}
        ELSE IF \E i \in 1..Len(ev.cand) : ev.cand[i] <= Tol THEN {"wrong-noise-added"} ELSE {"wrong-amount"})
       \cup (IF ev.psd > 10000 THEN {"added-covariance-not-positive-semidefinite"} ELSE {})
       \cup (IF ev.sym > 1000 THEN {"added-covariance-asymmetric"} ELSE {})
       \cup (IF TLt(ev.t, s.t) THEN {"order"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == IF ev.k = "step" THEN [s EXCEPT !.t = ev.t] ELSE s
====
