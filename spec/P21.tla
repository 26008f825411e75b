---- MODULE P21 ----
(* Tracking devices.  A device is configured by a history of adding and removing measurement types and by its integration time.        *)
(* msr: one attempt to measure; in0/in1: the trajectory covers the start/end of the integration, vis0/vis1: line of sight above the     *)
(* mask there by the independent geometry (0 no, 1 yes, 2 too close to tell); val: largest deviation from the geometric value, in       *)
(* tolerances.  h: rows of the sensitivity matrix, dev: deviation from the derivative of the geometric value (1e-6 of its scale).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [dev |-> ev.dev, types |-> {}, int |-> FALSE]
SeqSet(q) == {q[n] : n \in 1..Len(q)}
(* what an attempt may give *)
And3(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 1
Outcomes(s, ev) ==
  LET two == s.int /\ ~ev.inst
      vis == IF two THEN And3(ev.vis0, ev.vis1) ELSE ev.vis1 IN
  IF two /\ (~ev.in0 \/ ~ev.in1) THEN {"none"}
  ELSE IF ~ev.in1 THEN {"err"}
  ELSE IF vis = 0 THEN {"none"} ELSE IF vis = 1 THEN {"msr"} ELSE {"none", "msr"}
PFails(s, ev) ==
  CASE ev.k = "cfg" -> IF SeqSet(ev.types) # s.types \/ Len(ev.types) # Cardinality(s.types) THEN {"configured-types"} ELSE {}
    [] ev.k = "msr" ->
       (IF ev.got \notin Outcomes(s, ev) THEN {"visibility"} ELSE {})
       \cup (IF ev.got = "msr" /\ SeqSet(ev.types) # s.types THEN {"measured-types"} ELSE {})
       \cup (IF ev.got = "msr" /\ ev.val > 10 THEN {"value"} ELSE {})
       \cup (IF ~ev.stamp THEN {"stamp"} ELSE {})
    [] ev.k = "aer" -> IF ev.dev > 10 THEN {"azimuth-elevation"} ELSE {}
    [] ev.k = "h" ->
       UNION {(IF ev.rows[n].have /\ ev.rows[n].dev > 10 THEN {"partials-" \o ev.rows[n].t} ELSE {})
              \cup (IF ~ev.rows[n].have /\ ~ev.rows[n].zero THEN {"row-of-a-missing-type"} ELSE {})
              \cup (IF ~ev.rows[n].rest THEN {"partials-of-other-parameters"} ELSE {}) : n \in 1..Len(ev.rows)}
    [] ev.k = "cov" ->
       UNION {(IF ev.rows[n].dev > 1 \/ ev.rows[n].off \/ ev.rows[n].in # (ev.rows[n].t \in s.types) THEN {"noise-covariance"} ELSE {}) : n \in 1..Len(ev.rows)}
    [] ev.k = "bad" -> IF ev.got = "msr" \/ (ev.vis = 1 /\ ev.got # "err") THEN {"unsupported-type-measured"} ELSE {}
    [] ev.k = "rate" -> IF ev.dev > 1 THEN {"asset-velocity"} ELSE {}
    [] ev.k = "move" -> (IF ev.pos > 1 THEN {"asset-motion"} ELSE {}) \cup (IF ev.stm > 10 THEN {"asset-stm"} ELSE {})
    [] ev.k = "err" -> {"spurious-error"}
    [] OTHER -> {}
PApply(s, ev) ==
  CASE ev.k = "add" -> [s EXCEPT !.types = @ \cup {ev.t}]
    [] ev.k = "del" -> [s EXCEPT !.types = @ \ {ev.t}]
    [] ev.k = "int" -> [s EXCEPT !.int = ev.on]
    [] OTHER -> s
====
