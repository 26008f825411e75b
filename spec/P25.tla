---- MODULE P25 ----
(* Lambert transfers.  kind: A (prograde), S (short way), L (long way), N0, N1, ... (full revolutions); up: the cross product of the   *)
(* two positions has a positive z (1 yes, 0 no, 2 too close to tell); bad: no transfer plane or no positive flight time, so there is   *)
(* nothing to return but an error; must: a solution exists by construction and the solver covers it.                                  *)
(* sol: arr, vel: distance of the closed-form flight from the second position / arrival velocity, in thousandths of the tolerance;     *)
(* way, revs: direction and full revolutions of the returned transfer; truth: distance from the transfer the problem was made from.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [kind |-> ev.kind, up |-> ev.up, bad |-> ev.bad, must |-> ev.must]
Ways(s) == CASE s.kind = "S" -> {"short"} [] s.kind = "L" -> {"long"}
             [] s.kind = "A" -> IF s.up = 1 THEN {"short"} ELSE IF s.up = 0 THEN {"long"} ELSE {"short", "long"}
             [] OTHER -> {"short", "long"}
Revs(s) == CASE s.kind = "N1" -> 1 [] s.kind = "N2" -> 2 [] s.kind = "N3" -> 3 [] OTHER -> 0
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.must THEN {"unsolved"} ELSE {}
    [] ev.k = "sol" ->
         IF s.bad THEN {"impossible-solved"} ELSE
         IF ~ev.fin THEN {"not-a-number"} ELSE
         (IF ev.arr > 1000 THEN {"arrival-position"} ELSE {}) \cup (IF ev.vel > 1000 THEN {"arrival-velocity"} ELSE {})
         \cup (IF ev.way \notin Ways(s) \cup {"tie"} /\ s.up # 2 THEN {"direction-of-motion"} ELSE {})
         \cup (IF ev.way = "tie" THEN {"no-transfer-plane"} ELSE {})
         \cup (IF ev.revs # Revs(s) /\ ev.revs # -1 THEN {"revolutions"} ELSE {})
         \cup (IF ev.truth > 1000 THEN {"another-transfer"} ELSE {})
         \cup (IF ~ev.orbits THEN {"transfer-orbits"} ELSE {})
    [] ev.k = "input" -> IF ev.ok # ev.valid THEN {"input-verdict"} ELSE {}
    [] OTHER -> {"harness"}
PApply(s, ev) == s
====
