---- MODULE P10 ----
(* Every entry of a filter solution, judged against the Kalman equations evaluated independently from the entry before it.       *)
(* thr: rejection threshold in 1e-6 sigmas (-1: never reject, 0 with force: reject all).  Errors arrive as scaled integers:      *)
(* cb: predicted covariance vs Phi P Phi' (1e-6 sigma), xe: state deviation, ce: updated covariance, rre: ratio, pre: prefit      *)
(* (1e-3 measurement sigma), psd / shrink: most negative scaled eigenvalue (1e-9) of P / of Pbar - P, post: postfit.              *)
EXTENDS Time, TLC
PBegin(ev) == [thr |-> -1, force |-> FALSE]
Common(ev) == (IF ev.cb > 100 THEN {"predicted-covariance"} ELSE {})
              \cup (IF ev.psd > 10000 THEN {"covariance-not-positive-semidefinite"} ELSE {})
              \cup (IF ev.sym > 100 THEN {"covariance-asymmetric"} ELSE {})
\* the ratio is too close to the threshold to tell
Tie(s, ev) == s.thr >= 0 /\ ev.ratio - s.thr <= 20 + s.thr \div 100000 /\ s.thr - ev.ratio <= 20 + s.thr \div 100000
Must(s, ev) == s.force \/ (s.thr >= 0 /\ ev.ratio > s.thr)
PFails(s, ev) ==
  CASE ev.k = "err" -> {"spurious-error"}
    [] ev.k = "tu" -> Common(ev) \cup (IF ev.xe > 100 THEN {"predicted-deviation"} ELSE {}) \cup (IF ~ev.same THEN {"time-update-altered-covariance"} ELSE {})
    [] ev.k = "msr" ->
       IF ev.sing THEN {} ELSE
       Common(ev)
       \cup (IF ev.pre > 1 THEN {"prefit"} ELSE {})
       \cup (IF ev.amb > 10 THEN {"ambiguity-not-a-multiple"} ELSE {})
       \cup (IF ev.far THEN {"ambiguity-not-closest"} ELSE {})
       \cup (IF ev.rre > 1000 THEN {"ratio"} ELSE {})
       \cup (IF ~s.force /\ Tie(s, ev) THEN {} ELSE IF ev.rej /\ ~Must(s, ev) THEN {"accepted-range-measurement-rejected"} ELSE IF ~ev.rej /\ Must(s, ev) THEN {"outlier-accepted"} ELSE {})
       \cup (IF ev.xe > 1000 THEN IF ev.rej THEN {"rejected-measurement-moved-the-estimate"} ELSE {"updated-deviation"} ELSE {})
       \cup (IF ev.ce > 1000 THEN IF ev.rej THEN {"rejected-measurement-changed-the-covariance"} ELSE {"updated-covariance"} ELSE {})
       \cup (IF ev.shrink > 10000 THEN {"measurement-increased-the-covariance"} ELSE {})
       \cup (IF ~ev.rej /\ ev.post > 1 THEN {"postfit"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == IF ev.k = "set" THEN [thr |-> ev.thr, force |-> ev.force] ELSE s
====
