---- MODULE P30 ----
(* Multiple shooting: a chain of impulsive legs through nodes.  n nodes at equal intervals of time, the last one at the target; the    *)
(* search may move every node but the last.  Each leg begins where the one before it ended, changes the velocity alone, and arrives at  *)
(* its node at the epoch of the node.  Distances in thousandths of their tolerance; t0, t1 in nanoseconds off the exact epoch.         *)
(* node: a node of the first guess.  seg: a leg of the solution.  traj: the same leg flown.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
PBegin(ev) == [n |-> ev.n, bad |-> ev.bad, must |-> ev.must, nodes |-> 0, segs |-> 0, trajs |-> 0, open |-> FALSE]
Over(x, name) == IF x > 1000 THEN {name} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
(* the n-th part of the interval is rounded to a nanosecond and added up *)
OffTime(s, ev) == (IF Abs(ev.t0) > s.n \/ Abs(ev.t1) > s.n THEN {"epochs"} ELSE {})
PFails(s, ev) ==
  CASE ev.k = "refused" -> IF s.bad THEN {} ELSE {"problem-refused"}
    [] ev.k = "node" -> (IF s.bad THEN {"ill-posed-accepted"} ELSE {})
         \cup (IF ev.i # s.nodes + 1 THEN {"node-order"} ELSE {}) \cup (IF Abs(ev.t) > s.n THEN {"node-epoch"} ELSE {})
         \cup Over(ev.off, "node-place") \cup (IF ev.i = s.n THEN Over(ev.end, "last-node") ELSE {})
    [] ev.k = "seg" ->
         (IF s.nodes # s.n \/ ev.i # s.segs + 1 THEN {"leg-order"} ELSE {})
         \cup OffTime(s, ev) \cup Over(ev.start, "leg-starts-elsewhere") \cup Over(ev.dv, "correction-not-the-change") \cup Over(ev.err, "node-missed")
         \cup Over(ev.ach, "reported-arrival") \cup (IF ~ev.rest THEN {"touched-other"} ELSE {})
         \cup (IF ev.i = s.n THEN Over(ev.end, "target-missed") ELSE {})
    [] ev.k = "traj" ->
         (IF s.segs # s.n \/ ev.i # s.trajs + 1 THEN {"leg-order"} ELSE {}) \cup OffTime(s, ev) \cup Over(ev.first, "flown-start") \cup Over(ev.last, "flown-end")
    [] ev.k = "cost" -> IF ev.ratio > 1010000 THEN {"cost-grew"} ELSE {}
    [] ev.k = "fail" -> IF s.must THEN {"not-solved"} ELSE {}
    [] ev.k = "done" -> IF s.segs = s.n /\ s.trajs = s.n THEN {} ELSE {"legs-missing"}
    [] OTHER -> {"harness"}
PApply(s, ev) ==
  CASE ev.k = "node" -> [s EXCEPT !.nodes = @ + 1]
    [] ev.k = "seg" -> [s EXCEPT !.segs = @ + 1]
    [] ev.k = "traj" -> [s EXCEPT !.trajs = @ + 1]
    [] OTHER -> s
====
