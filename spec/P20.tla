---- MODULE P20 ----
(* Batch least squares.  ms: the measurements of the arc in order, each with the number of its observations, whether it was flagged    *)
(* rejected and whether its tracker is known and sees the vehicle.  The reference minimises the weighted residuals of exactly the      *)
(* usable ones; dist: distance to it in thousandths of a standard deviation, cov: largest relative deviation of the covariance (1e-6), *)
(* rms: deviation of the reported residual ratio (1e-6, relative).  well: the reference is well conditioned.                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [ms |-> ev.ms, bad |-> ev.bad, well |-> ev.well, easy |-> ev.easy, maxit |-> ev.maxit]
Usable(m) == ~m.rej /\ m.seen
RECURSIVE Count(_, _)
Count(ms, n) == IF n = 0 THEN 0 ELSE Count(ms, n - 1) + (IF Usable(ms[n]) THEN ms[n].n ELSE 0)
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.bad THEN {} ELSE {"spurious-error"}
    [] ev.k = "ref" -> IF ev.n # Count(s.ms, Len(s.ms)) THEN {"reference"} ELSE {}
    [] ev.k = "sol" ->
       (IF s.bad THEN {"bad-accepted"} ELSE {})
       \cup (IF s.well /\ ev.conv /\ ev.dist > 50 THEN {"converged-elsewhere"} ELSE {})
       \cup (IF s.well /\ s.easy /\ ~ev.conv THEN {"not-converged"} ELSE {})
       \cup (IF s.well /\ ev.conv /\ ev.cov > 3000 THEN {"covariance"} ELSE {})
       \cup (IF ~ev.psd \/ ~ev.sym THEN {"covariance-not-positive"} ELSE {})
       \cup (IF s.well /\ ev.conv /\ ev.rms > 20000 THEN {"residual-ratio"} ELSE {})
       \cup (IF ev.it > s.maxit THEN {"too-many-iterations"} ELSE {})
       \cup (IF ~ev.rest THEN {"touched-other"} ELSE {})
       \cup (IF ev.conv /\ ~ev.small THEN {"converged-with-a-large-correction"} ELSE {})
    [] ev.k = "eval" -> IF ev.rms > 2000 THEN {"evaluated-residual-ratio"} ELSE {}
    [] ev.k = "kf" -> IF ~ev.psd \/ ~ev.same THEN {"estimate-from-solution"} ELSE {}
    [] OTHER -> {}
PApply(s, ev) == s
====
