---- MODULE P19 ----
(* Impulsive and finite burn targeting.  A problem is a set of variables (each a component of the state with bounds), objectives with tolerances,     *)
(* the epochs of correction and of achievement.  must: "solve" when an independent calculation has the solution inside the bounds     *)
(* and the problem is well conditioned, "error" when the setup is invalid, "may" otherwise.                                          *)
(* A solution is judged against an independent propagation of the corrected state: obj is the error of each objective in              *)
(* thousandths of its tolerance.                                                                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [must |-> ev.must, maxit |-> ev.maxit]
ObjMax == 1020
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.must = "solve" THEN {"unsolved"} ELSE {}
    [] ev.k = "sol" ->
       (IF s.must = "error" THEN {"bad-setup-accepted"} ELSE {})
       \cup (IF \E n \in 1..Len(ev.obj) : ev.obj[n] > ObjMax THEN {"objective-missed"} ELSE {})
       \cup (IF ev.corr > 100 THEN {"correction-not-applied"} ELSE {})
       \cup (IF ev.ach > 100 THEN {"achieved-state"} ELSE {})
       \cup (IF \E n \in 1..Len(ev.err) : ev.err[n] > 20 THEN {"achieved-errors"} ELSE {})
       \cup (IF ~ev.bounds THEN {"out-of-bounds"} ELSE {})
       \cup (IF ~ev.rest THEN {"touched-other"} ELSE {})
       \cup (IF ~ev.same THEN {"another-problem"} ELSE {})
       \cup (IF ev.it > s.maxit THEN {"too-many-iterations"} ELSE {})
    [] ev.k = "dir" -> (IF ev.miss > ObjMax THEN {"maneuver-misses"} ELSE {}) \cup (IF ev.ach > ObjMax THEN {"objective-missed"} ELSE {})
       \cup (IF ~ev.ok THEN {"apply-refused"} ELSE {}) \cup (IF ~ev.inb THEN {"out-of-bounds"} ELSE {})
    [] ev.k = "apply" -> (IF ~ev.ok THEN {"apply-refused"} ELSE {}) \cup (IF ev.ok /\ ev.dev > 100 THEN {"apply-state"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == s
====
