---- MODULE P28 ----
(* The B-plane of a hyperbola and the velocity corrections computed with it.  hyper: the orbit is hyperbolic; must: the target is near  *)
(* enough for the correction to exist and to converge.  Distances in thousandths of their tolerance.                                   *)
(* bp: one state of the flight.  bt, br: B.T and B.R against the closed form; mag, ang: magnitude and angle against these; dcm: the     *)
(* matrix against the unit vectors S, T, R; jac: partials against differences; par: the values of the state parameters; u, w: B.T and   *)
(* B.R in millionths of |B|, which stay the same over the whole flight.                                                                *)
(* tgt: after the correction.  bt, br: distance of the corrected orbit from the target; rep: of the reported B-plane from the actual.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [hyper |-> ev.hyper, must |-> ev.must, seen |-> FALSE, u |-> 0, w |-> 0]
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Over(x, name) == IF x > 1000 THEN {name} ELSE {}
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.hyper THEN {"hyperbola-refused"} ELSE {}
    [] ev.k = "bp" ->
         IF ~s.hyper THEN {"bound-orbit-accepted"} ELSE
         Over(ev.bt, "b-dot-t") \cup Over(ev.br, "b-dot-r") \cup Over(ev.mag, "magnitude") \cup Over(ev.ang, "angle") \cup Over(ev.dcm, "matrix")
         \cup Over(ev.jac, "partials") \cup Over(ev.par, "state-parameter") \cup (IF ~ev.same THEN {"frame-or-epoch"} ELSE {})
         \cup (IF s.seen /\ (Dist(s.u, ev.u) > 2 \/ Dist(s.w, ev.w) > 2) THEN {"changes-along-the-flight"} ELSE {})
    [] ev.k = "tgt" ->
         IF ~s.hyper THEN (IF ev.ok THEN {"bound-orbit-targeted"} ELSE {}) ELSE
         IF ~ev.ok THEN (IF s.must THEN {"near-target-not-reached"} ELSE {}) ELSE
         Over(ev.bt, "target-b-dot-t") \cup Over(ev.br, "target-b-dot-r") \cup Over(ev.rep, "reported-b-plane")
    [] ev.k = "obj" -> IF ev.ok THEN {} ELSE {"objectives"}
    [] OTHER -> {"harness"}
PApply(s, ev) == IF ev.k = "bp" THEN [s EXCEPT !.seen = TRUE, !.u = ev.u, !.w = ev.w] ELSE s
====
