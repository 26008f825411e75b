---- MODULE P18 ----
(* Dispersions.  A random variable is a set of named parameters, some with a standard deviation; the state is nine slots.  A draw    *)
(* may only move the slots its parameters depend on; over many draws each parameter has its mean and standard deviation and is       *)
(* independent of the others; what is reported is the difference with the template.  A covariance is followed entry by entry.       *)
(* z: deviation of a sample statistic in thousandths of its standard error; ratio: sample over configured deviation in thousandths.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Set(q) == {q[n] : n \in 1..Len(q)}
PBegin(ev) == [kind |-> ev.kind, bad |-> ev.bad, names |-> ev.names, sd |-> ev.sd, free |-> Set(ev.free), slots |-> Set(ev.slots)]
ZMax == 6000
RatioMax == 120
CorrMax == 140
Abs(x) == IF x < 0 THEN -x ELSE x
All(q, m) == \A n \in 1..Len(q) : q[n] <= m
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.bad THEN {} ELSE {"spurious-error"}
    [] ev.k = "stat" ->
       (IF s.bad THEN {"bad-accepted"} ELSE {})
       \cup (IF ~(Set(ev.moved) \subseteq s.free) THEN {"moved-other"} ELSE {})
       \cup (IF ~ev.rest THEN {"touched-other"} ELSE {})
       \cup (IF ~All(ev.z, ZMax) THEN {"mean"} ELSE {})
       \cup (IF \E n \in 1..Len(ev.ratio) : Abs(ev.ratio[n] - 1000) > RatioMax THEN {"deviation"} ELSE {})
       \cup (IF ~All(ev.corr, CorrMax) THEN {"correlated"} ELSE {})
       \cup (IF ev.reported > 100 \/ ~ev.named THEN {"reported"} ELSE {})
       \cup (IF ~ev.distinct THEN {"not-random"} ELSE {})
    [] ev.k = "cov" ->
       (IF s.bad THEN {"bad-accepted"} ELSE {})
       \cup (IF ~All(ev.z, ZMax) THEN {"mean"} ELSE {})
       \cup (IF ~All(ev.zc, ZMax + 1000) THEN {"covariance"} ELSE {})
       \cup (IF ev.reported > 100 THEN {"reported"} ELSE {})
       \cup (IF ~ev.rest THEN {"touched-other"} ELSE {})
       \cup (IF ~ev.sds THEN {"listed-deviations"} ELSE {})
    [] ev.k = "unc" ->
       (IF s.bad THEN {"bad-accepted"} ELSE {})
       \cup (IF ev.cov > 1 THEN (IF ev.flip > 1 THEN {"frame"} ELSE {"frame-transposed"}) ELSE {})
       \cup (IF ev.kep > 50 THEN {"element-sigma"} ELSE {})
       \cup (IF ~ev.kept THEN {"nominal-changed"} ELSE {})
       \cup (IF ~ev.again THEN {"not-reproducible"} ELSE {})
       \cup (IF ~ev.randcov \/ ev.far > 1000 THEN {"randomised"} ELSE {})
    [] ev.k = "disp" -> (IF ev.dev > 1 \/ ev.state > 1 THEN {"dispersed-estimate"} ELSE {}) \cup (IF ev.cov > 1 THEN {"dispersed-covariance"} ELSE {}) \cup (IF ~ev.kept THEN {"nominal-changed"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == s
====
