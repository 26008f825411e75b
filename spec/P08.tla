---- MODULE P08 ----
(* Mission sequence.  ph: the phases in time order [t, kind, name, dis, ev]; until: name of the phase to stop before ("" none). *)
(* The state starts at t; a disabled phase is as if absent (unless it is the one to stop at).  The phase ongoing at t runs      *)
(* first, without its entry event when it began earlier; every later phase starts where the previous one ended, applies its     *)
(* entry event exactly once, and runs until the next phase.                                                                      *)
EXTENDS Time, TLC
PBegin(ev) == [ph |-> ev.ph, until |-> ev.until, t |-> ev.t, valid |-> ev.valid, ready |-> ev.ready, cur |-> 0, over |-> FALSE]
Act(p) == p.kind = "act"
Enabled(s, p) == ~Act(p) \/ ~p.dis \/ p.name = s.until
\* the index of the ongoing phase at the start, 0 if none
Ongoing(s) == LET c == {j \in 1..Len(s.ph) : Enabled(s, s.ph[j]) /\ TLe(s.ph[j].t, s.t)} IN
              IF c = {} THEN 0 ELSE CHOOSE j \in c : \A i \in c : i <= j
After(s, j) == LET c == {i \in j+1..Len(s.ph) : Enabled(s, s.ph[i])} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A k \in c : i <= k
\* the phase to execute next
Todo(s) == IF s.cur = 0 THEN Ongoing(s) ELSE After(s, s.cur)
Stops(s, j) == ~Act(s.ph[j]) \/ s.ph[j].name = s.until
PFails(s, ev) ==
  CASE ev.k = "setup" -> IF ev.ok = s.valid THEN {} ELSE {"setup-verdict"}
    [] ev.k = "err" -> IF s.valid /\ s.ready /\ (s.cur # 0 \/ Ongoing(s) # 0) THEN {"spurious-error"} ELSE {}
    [] ev.k = "done" -> IF ~s.valid \/ ~s.ready THEN {"inconsistent-sequence-executed"}
                        ELSE IF Todo(s) = 0 THEN {"no-phase-covers-the-state"}
                        ELSE IF ~Stops(s, Todo(s)) THEN {"phases-missing"} ELSE {}
    [] ev.k = "phase" ->
       LET j == Todo(s) IN
       IF ~s.valid \/ ~s.ready THEN {"inconsistent-sequence-executed"}
       ELSE IF j = 0 \/ (j # 0 /\ Stops(s, j)) THEN {"phase-after-the-end"}
       ELSE LET p == s.ph[j]  n == s.ph[After(s, j)]  entered == p.t = s.t IN
            (IF ev.name # p.name THEN {"phase-order"} ELSE {})
            \cup (IF ev.t0 # s.t THEN {"phase-start"} ELSE {})
            \cup (IF ev.t1 # n.t THEN {"phase-end"} ELSE {})
            \cup (IF ev.name = p.name /\ ev.t0 = s.t /\ ev.t1 = n.t
                  THEN (IF entered /\ ev.wi > 10 THEN {"entry-event-not-applied"} ELSE {})
                       \cup (IF ~entered /\ ev.wo > 10 THEN {"entry-event-applied-late"} ELSE {})
                       \cup (IF ev.dyn > 1000 THEN {"phase-dynamics"} ELSE {})
                  ELSE {})
PApply(s, ev) == IF ev.k = "phase" THEN [s EXCEPT !.cur = Todo(s), !.t = ev.t1] ELSE s
====
