---- MODULE P07 ----
(* Finite burns.  The state is the guidance mode, the epoch (in the harness' clock) and whether propellant is decremented.     *)
(* An integration step thrusts iff it starts in the closed window of the burn: the mode is set when a call starts and after every step. *)
(*  on/off: deviation of what the step did from the step with/without      *)
(* thrust (independent integration); mon/moff: deviation of the propellant mass, in units of 1e-8 kg.                           *)
EXTENDS Time, TLC
In(s, t) == TLe(s.start, t) /\ TLe(t, s.end)
ModeAt(s, t) == IF In(s, t) THEN "Thrust" ELSE "Coast"
\* a call first sets the mode for the epoch it starts at, whatever mode the state was given in
PBegin(ev) == [mode |-> ModeAt(ev, ev.t), t |-> ev.t, start |-> ev.start, end |-> ev.end, decr |-> ev.decr, bad |-> ev.bad]
Thrusting(s) == s.mode = "Thrust"
PFails(s, ev) ==
  CASE ev.k = "step" ->
      (IF s.bad /\ Thrusting(s) THEN {"invalid-command-accepted"} ELSE {})
      \cup (IF ev.t0 # s.t THEN {"discontinuous"} ELSE {})
      \cup (IF Thrusting(s)
            THEN (IF ev.on > 100 THEN {"thrust-acceleration"} ELSE {})
                 \cup (IF s.decr THEN (IF ev.mon > 1 THEN {"propellant-used"} ELSE {}) ELSE (IF ev.moff > 0 THEN {"propellant-changed"} ELSE {}))
                 \cup (IF s.decr /\ ev.dry # "same" THEN {"other-mass-changed"} ELSE {})
            ELSE (IF ev.off > 100 THEN {"coast-acceleration"} ELSE {}) \cup (IF ev.moff > 0 THEN {"propellant-changed"} ELSE {}))
      \cup (IF ev.dry # "same" THEN {"other-mass-changed"} ELSE {})
      \cup (IF ev.neg THEN {"negative-propellant"} ELSE {})
      \cup (IF ev.mode # ModeAt(s, ev.t1) THEN {"mode"} ELSE {})
      \cup (IF ev.dir # "none" /\ ~Thrusting(s) THEN {"thrust-direction-while-coasting"} ELSE {})
      \cup (IF ev.dir = "off" \/ (Thrusting(s) /\ ev.dir = "none") THEN {"thrust-direction"} ELSE {})
    \* the step that would follow fails: only because the propellant runs out in it or the command is invalid
    [] ev.k = "err" -> IF s.bad /\ Thrusting(s) THEN {} ELSE IF Thrusting(s) /\ s.decr /\ ev.exhausts THEN {} ELSE IF s.bad /\ ev.nothr THEN {} ELSE {"spurious-error"}
    \* a call that returned normally although the propellant had to run out
    [] ev.k = "done" -> IF ev.t1 # s.t THEN {"returned-state-is-not-the-last"} ELSE {}
PApply(s, ev) == IF ev.k = "step" THEN [s EXCEPT !.mode = ev.mode, !.t = ev.t1] ELSE s
====
