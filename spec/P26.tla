---- MODULE P26 ----
(* Noise models.  kind: none, white, gm (Gauss-Markov bias), both; cst: the bias has a constant part; dev: none (the model itself) or  *)
(* the kind of device that applies it (gs, link, pos).  Statistics are z-scores in thousandths over fixed seeds.                       *)
(* repro: the same generator gives the same samples (same), another one others (differ: how many of 300 differ); offset: the constant  *)
(* part moves every sample; scaled: model times k; cov: reported variance is the sum of those of the parts; stats: mean, variance and  *)
(* lag-one correlation of the samples against the reported ones; silent: no noise at all; steady: a bias after a while.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [kind |-> ev.kind, cst |-> ev.cst, dev |-> ev.dev]
Out(x) == x > 6000 \/ x < -6000
PFails(s, ev) ==
  CASE ev.k = "repro" -> (IF ~ev.same THEN {"not-reproducible"} ELSE {}) \cup (IF ~ev.fin THEN {"not-a-number"} ELSE {})
                         \cup (IF s.kind # "none" /\ ev.differ < 150 THEN {"generator-ignored"} ELSE {})
                         \cup (IF s.kind = "none" /\ ev.differ > 0 THEN {"noise-from-nothing"} ELSE {})
    [] ev.k = "offset" -> IF ~ev.ok THEN {"constant-bias"} ELSE {}
    [] ev.k = "scaled" -> (IF ~ev.ok \/ ~ev.assign THEN {"scaling"} ELSE {}) \cup (IF ~ev.cov THEN {"scaled-covariance"} ELSE {})
    [] ev.k = "cov" -> IF ~ev.ok THEN {"covariance"} ELSE {}
    [] ev.k = "stats" -> IF s.kind = "none" /\ s.dev = "none" THEN {"harness"} ELSE
         (IF Out(ev.mean) THEN {"mean"} ELSE {}) \cup (IF Out(ev.var) THEN {"variance"} ELSE {}) \cup (IF Out(ev.lag) THEN {"correlated-draws"} ELSE {})
    [] ev.k = "silent" -> IF ~ev.ok THEN {"noise-from-nothing"} ELSE {}
    [] ev.k = "cross" -> IF Out(ev.z) THEN {"types-correlated"} ELSE {}
    [] ev.k = "reported" -> (IF ~ev.ok THEN {"reported-noise"} ELSE {}) \cup (IF ~ev.refused THEN {"unconfigured-type"} ELSE {})
    [] ev.k = "bare-device" -> (IF ~ev.refused THEN {"noiseless-device-simulates"} ELSE {}) \cup (IF ~ev.cov THEN {"reported-noise"} ELSE {})
    [] ev.k = "steady" -> (IF Out(ev.mean) THEN {"mean"} ELSE {}) \cup (IF Out(ev.var) THEN {"bias-variance"} ELSE {}) \cup (IF Out(ev.corr) THEN {"bias-correlation"} ELSE {})
    [] ev.k = "ctor" -> IF ~ev.ok THEN {"constructor"} ELSE {}
    [] ev.k = "simulated" -> IF ~ev.ok THEN {"simulation-record"} ELSE {}
    [] ev.k = "unseen" -> {}
    [] OTHER -> {"harness"}
PApply(s, ev) == s
====
