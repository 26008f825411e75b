---- MODULE P13 ----
(* The arc simulated from strands.  dev: name, sampling, strands (from a to b), and per strand whether the vehicle is visible at   *)
(* each epoch of its grid a, a + samp, ... (1 yes, 0 no, 2 too close to tell), by an independent geometry.                        *)
(* A measurement uses up one grid epoch; at the end no epoch which must have one is left.  Strands of a tracker which share grid   *)
(* epochs share the measurement.                                                                                                  *)
EXTENDS Time, FiniteSets, TLC
RECURSIVE TMul(_, _)
TMul(t, n) == IF n = 0 THEN TZ ELSE TAdd(t, TMul(t, n - 1))
Grid(s, samp) == [n \in 1..Len(s.vis) |-> [t |-> TAdd(s.a, TMul(samp, n - 1)), v |-> s.vis[n]]]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
\* the grid has exactly the epochs from a to b
GridOk(s, samp) == Len(s.vis) >= 1 => TLe(TAdd(s.a, TMul(samp, Len(s.vis) - 1)), s.b) /\ TLt(s.b, TAdd(s.a, TMul(samp, Len(s.vis))))
PBegin(ev) == [dev |-> [d \in 1..Len(ev.dev) |-> [name |-> ev.dev[d].name, g |-> Cat([n \in 1..Len(ev.dev[d].strands) |-> Grid(ev.dev[d].strands[n], ev.dev[d].samp)])]],
               ok |-> \A d \in 1..Len(ev.dev) : \A n \in 1..Len(ev.dev[d].strands) : GridOk(ev.dev[d].strands[n], ev.dev[d].samp),
               bad |-> ev.bad, last |-> <<-1, 0>>, seen |-> {}, end |-> ev.end]
Hits(s, t, trk) == {v \in {0, 1, 2} : \E d \in 1..Len(s.dev) : s.dev[d].name = trk /\ \E n \in 1..Len(s.dev[d].g) : s.dev[d].g[n].t = t /\ s.dev[d].g[n].v = v}
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.bad THEN {} ELSE {"spurious-error"}
    [] ev.k = "m" ->
       LET h == Hits(s, ev.t, ev.trk) IN
       (IF s.bad THEN {"invalid-configuration-accepted"} ELSE {})
       \cup (IF ~s.ok THEN {"harness-grid"} ELSE {})
       \cup (IF h = {} THEN {"off-schedule"} ELSE IF h = {0} THEN {"not-visible"} ELSE {})
       \cup (IF TLt(ev.t, s.last) THEN {"order"} ELSE {})
       \cup (IF TLt(s.end, ev.t) \/ TLt(ev.t, TZ) THEN {"outside-trajectory"} ELSE {})
       \cup (IF <<ev.t, ev.trk>> \in s.seen THEN {"duplicate"} ELSE {})
       \cup (IF ~ev.types THEN {"types"} ELSE {})
       \cup (IF ev.val > 1000 THEN {"value-beyond-noise"} ELSE {})
    [] ev.k = "done" ->
       (IF s.bad THEN {"invalid-configuration-accepted"} ELSE {})
       \cup (IF \E d \in 1..Len(s.dev) : \E n \in 1..Len(s.dev[d].g) : s.dev[d].g[n].v = 1 /\ <<s.dev[d].g[n].t, s.dev[d].name>> \notin s.seen THEN {"missing"} ELSE {})
       \cup (IF ~ev.same THEN {"not-reproducible"} ELSE {}) \cup (IF ~ev.other THEN {"seed-without-effect"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == IF ev.k = "m" THEN [s EXCEPT !.last = ev.t, !.seen = @ \cup {<<ev.t, ev.trk>>}] ELSE s
====
