---- MODULE P23 ----
(* Low-thrust guidance.  law: rug, klu or replay.  Per decision (next): the mode before, whether an objective is unmet, whether the     *)
(* configured eclipse limit is exceeded (dark), and the mode after.  Steering: act counts the objectives that may be steered (unmet,    *)
(* not of zero weight, efficient enough); err is |direction| - 1 in 1e-9.  gain: cosine (1e-6) between the direction and the gradient   *)
(* of the targeted element with the sign of its error; best: the law is the optimum for that element.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [law |-> ev.law]
After(mode, unmet, dark) == IF mode = "inhibit" THEN "inhibit" ELSE IF unmet /\ ~dark THEN "thrust" ELSE "coast"
PFails(s, ev) ==
  CASE ev.k = "next" -> IF ev.after # After(ev.mode, ev.unmet, ev.dark)
                        THEN {IF ev.mode = "inhibit" THEN "inhibit-overridden" ELSE IF ~ev.unmet THEN "thrusts-when-met" ELSE IF ev.dark THEN "thrusts-in-eclipse" ELSE "coasts-when-unmet"} ELSE {}
    [] ev.k = "achieved" -> IF ev.said # ev.met THEN {"achieved"} ELSE {}
    [] ev.k = "steer" -> IF ev.mode = "thrust" /\ ev.act > 0
                         THEN (IF ev.zero \/ ev.err > 1000 THEN {"not-a-unit-vector"} ELSE {}) \cup (IF ev.throttle # 1000 THEN {"throttle"} ELSE {})
                         ELSE (IF ~ev.zero THEN {"steers-for-nothing"} ELSE {}) \cup (IF ev.throttle # 0 THEN {"throttle"} ELSE {})
    [] ev.k = "gain" -> IF ev.gain <= 0 THEN {ev.bad} ELSE IF ev.best /\ ev.gain < 999000 THEN {"not-optimal"} ELSE {}
    [] ev.k = "eff" -> (IF ev.below \/ ev.above THEN {"efficiency-range"} ELSE {}) \cup (IF ev.err > 1000 THEN {"efficiency"} ELSE {})
    [] ev.k = "blend" -> IF ~ev.ok THEN {"blend-" \o ev.what} ELSE {}
    [] ev.k = "closed" -> (IF ~ev.err THEN {"error-grows"} ELSE {}) \cup (IF ~ev.modes THEN {"modes"} ELSE {}) \cup (IF ~ev.prop THEN {"propellant"} ELSE {}) \cup (IF ~ev.dirs THEN {"recorded-direction"} ELSE {})
    [] ev.k = "status" -> IF ~ev.ok THEN {"status"} ELSE {}
    [] ev.k = "ctor" -> IF ev.accepted # ev.valid THEN {"constructor"} ELSE {}
    [] ev.k = "command" -> IF ev.got # ev.want THEN {"command"} ELSE {}
    [] ev.k = "unseen" -> {}
    [] OTHER -> {"harness"}
PApply(s, ev) == s
====
