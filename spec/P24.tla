---- MODULE P24 ----
(* Force models.  models: names of the models configured (pm point masses, gf gravity field, st solid tides, srp radiation pressure,  *)
(* drag); massless: the spacecraft has no mass.  All err / val / pos / ... are distances from the law in thousandths of the tolerance. *)
(* term: one model alone; sum: all together; scale: the acceleration of one model when the parameter p is multiplied by k/2 (ratio in  *)
(* millionths, side: part not along the original, in billionths); part: partials of one model against differences of its acceleration; *)
(* coeff: derivative with respect to the coefficient; dual: partials and acceleration of the whole with a state transition matrix.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Range(q) == {q[i] : i \in 1..Len(q)}
PBegin(ev) == [models |-> Range(ev.models), massless |-> ev.massless]
Forces == {"srp", "drag"}
(* power of each parameter in the acceleration of each model *)
Power(m, p) ==
  CASE m \in Forces /\ p = "mass" -> -1
    [] m = "srp" /\ p \in {"srp-area", "cr"} -> 1
    [] m = "drag" /\ p \in {"drag-area", "cd"} -> 1
    [] OTHER -> 0
(* k is the factor times two: 0, 1 (half) or 4 (double) *)
Ratio(pw, k) ==
  CASE pw = 0 -> 1000000
    [] pw = 1 -> k * 500000
    [] pw = -1 -> IF k = 4 THEN 500000 ELSE 2000000
Abs(x) == IF x < 0 THEN -x ELSE x
HasPartials(m) == m # "drag"
PFails(s, ev) ==
  CASE ev.k = "fail" -> {"model-error"}
    [] ev.k = "massless" -> IF s.models \cap Forces # {} /\ (ev.ok \/ ev.stm) THEN {"massless-accepted"}
                            ELSE IF s.models \cap Forces = {} /\ (~ev.ok \/ ~ev.stm) THEN {"massless-refused"} ELSE {}
    [] ev.k = "load" -> IF ~ev.same THEN {"field-coefficients"} ELSE {}
    [] ev.k = "term" -> IF ev.m \notin s.models THEN {"harness"} ELSE IF ev.err > 1000 THEN {"law-of-" \o ev.m} ELSE {}
    [] ev.k = "part-light" -> IF ev.frac < -1 \/ ev.frac > 1000001 \/ ev.side > 10 THEN {"illumination"} ELSE {}
    [] ev.k = "sum" -> (IF ev.err > 1000 THEN {"superposition"} ELSE {}) \cup (IF ev.rest > 1 THEN {"other-derivatives"} ELSE {})
    [] ev.k = "scale" -> (IF Abs(ev.ratio - Ratio(Power(ev.m, ev.p), ev.f)) > 1 \/ ev.side > 10 THEN {"scaling"} ELSE {})
    [] ev.k = "nopart" -> IF HasPartials(ev.m) THEN {"no-partials"} ELSE {}
    [] ev.k = "part" -> (IF ev.val > 1000 THEN {"partials-value"} ELSE {}) \cup (IF ev.pos > 1000 THEN {"partials-position"} ELSE {})
    [] ev.k = "coeff" -> IF ev.err > 1000 THEN {"partials-coefficient"} ELSE {}
    [] ev.k = "dual" -> IF ~ev.ok THEN (IF ev.must THEN {"no-partials"} ELSE {}) ELSE
         (IF ~ev.must THEN {"partials-incomplete"} ELSE {})
         \cup (IF ev.acc > 1000 THEN {"stm-acceleration"} ELSE {}) \cup (IF ev.grad > 1000 THEN {"partials-assembly"} ELSE {})
         \cup (IF ev.stm > 1000 THEN {"stm-rate"} ELSE {})
    [] OTHER -> {"harness"}
PApply(s, ev) == s
====
