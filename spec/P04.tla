---- MODULE P04 ----
(* Event search contract.  refs = number of crossings of the event in the search window (closed-form reference); idx = the index  *)
(* of the reference crossing nearest to the returned epoch; dt its distance in ms.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [n |-> ev.n]
PFails(st, ev) ==
  CASE ev.k = "skip" -> {}
    [] ev.k = "notfound" -> (IF ev.refs >= st.n THEN {"event-missed"} ELSE {})
    [] ev.k = "found" ->
         (IF ev.refs < st.n THEN {"event-invented"} ELSE {})
         \cup (IF ev.idx # st.n THEN {"wrong-crossing"} ELSE {})
         \cup (IF ev.dt > ev.prec + 10 THEN {"not-at-the-event"} ELSE {})
         \cup (IF ev.dr > 100 \/ ev.dv > 2000 THEN {"returned-state-off-the-trajectory"} ELSE {})
         \cup (IF ~ev.sorted THEN {"trajectory-not-ordered"} ELSE {})
         \cup (IF ~ev.covers THEN {"trajectory-does-not-cover"} ELSE {})
         \cup (IF ev.tdr > 20 THEN {"trajectory-off"} ELSE {})
PApply(st, ev) == st
====
