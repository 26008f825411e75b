---- MODULE P14 ----
(* Tracking schedules.  dev: handoff (E eager, G greedy, O overlap, F fixed strands without a scheduler), sampling, cadence, minimum *)
(* number of samples and the passes of the vehicle over the station: from a to b, rounded to the alignment from ra to rb.         *)
(* Which of two strands with the same start comes first is not said.  Raw(d) are the strands of a tracker on its own; the schedule is those after the handoffs.                                       *)
EXTENDS Time, FiniteSets, TLC
RECURSIVE TMul(_, _)
TMul(t, n) == IF n = 0 THEN TZ ELSE IF n % 2 = 0 THEN LET h == TMul(t, n \div 2) IN TAdd(h, h) ELSE TAdd(t, TMul(t, n - 1))
TSum(q) == TAdd(q[1], q[2])
\* acc: strands so far; w: passes left
RECURSIVE Raw1(_, _, _)
Raw1(d, acc, w) ==
  IF w = <<>> THEN acc ELSE
  LET p == Head(w)
      long == TLe(TMul(d.samp, d.min), TSub(p.b, p.a))
      clash == d.cad /\ acc # <<>> /\ TLt(p.ra, TAdd(acc[Len(acc)].b, d.off))
      a == IF clash THEN TAdd(acc[Len(acc)].b, d.off) ELSE p.ra
      b == IF d.cad /\ TLt(d.on, TSub(p.rb, a)) THEN TAdd(a, d.on) ELSE p.rb
  IN Raw1(d, IF ~long \/ (clash /\ TLt(p.rb, a)) THEN acc ELSE Append(acc, [a |-> a, b |-> b]), Tail(w))
Raw(d) == IF d.hand = "F" THEN [n \in 1..Len(d.win) |-> [a |-> d.win[n].a, b |-> d.win[n].b]] ELSE Raw1(d, <<>>, d.win)
Net(dev) == [dev |-> dev, raw |-> [d \in 1..Len(dev) |-> Raw(dev[d])], fin |-> <<>>]
PBegin(ev) == Net(<<>>)
Rng(q) == {q[n] : n \in 1..Len(q)}
\* what is wrong with the strands of all trackers, fin
Handoffs(s, fin) ==
  LET D == 1..Len(s.dev)
      All == UNION {{[d |-> d, a |-> fin[d][n].a, b |-> fin[d][n].b, n |-> n] : n \in 1..Len(fin[d])} : d \in D}
      Free(d) == s.dev[d].hand \in {"O", "F"}
      GreedyEnds == {g.b : g \in {x \in All : s.dev[x.d].hand = "G"}}
      Starts == UNION {{r.a : r \in Rng(s.raw[d])} \cup {TAdd(e, s.dev[d].samp) : e \in GreedyEnds} : d \in D}
      In(f, r) == TLe(r.a, f.a) /\ TLe(f.b, r.b)
      Delays(d, r) == {r.a} \cup {TAdd(e, s.dev[d].samp) : e \in {x \in GreedyEnds : TLe(r.a, x)}}
      StartOk(f, r) == f.a \in Delays(f.d, r)
      EndOk(f, r) == f.b = r.b \/ (s.dev[f.d].hand = "E" /\ TAdd(f.b, s.dev[f.d].samp) \in Starts)
      Gone(d, r) == \E a \in Delays(d, r) : TLt(r.b, a)
                       \/ (s.dev[d].hand = "E" /\ \E t \in Starts : TLe(a, t) /\ TLt(TSub(t, s.dev[d].samp), a) /\ TLe(t, r.b))
  IN (IF \E f \in All : TLt(f.b, f.a) THEN {"inverted-strand"} ELSE {})
     \cup (IF \E f \in All : ~\E r \in Rng(s.raw[f.d]) : In(f, r) THEN {"outside-visibility-or-cadence"} ELSE {})
     \cup (IF \E f \in All : (\E r \in Rng(s.raw[f.d]) : In(f, r)) /\ ~\E r \in Rng(s.raw[f.d]) : In(f, r) /\ StartOk(f, r) THEN {"start-moved"} ELSE {})
     \cup (IF \E f \in All : (\E r \in Rng(s.raw[f.d]) : In(f, r)) /\ ~\E r \in Rng(s.raw[f.d]) : In(f, r) /\ EndOk(f, r) THEN {"end-moved"} ELSE {})
     \cup (IF \E f, g \in All : f.d # g.d /\ ~Free(f.d) /\ (TLt(f.a, g.a) \/ (f.a = g.a /\ ~Free(g.d))) /\ TLe(g.a, f.b) THEN {"overlap"} ELSE {})
     \cup (IF \E d \in D : \E r \in Rng(s.raw[d]) : (~\E f \in Rng(fin[d]) : In(f, r)) /\ ~Gone(d, r) THEN {"contact-lost"} ELSE {})
     \cup (IF \E d \in D : \E n \in 1..Len(fin[d]) - 1 : ~TLe(fin[d][n].a, fin[d][n + 1].a) THEN {"order"} ELSE {})
     \cup (IF \E d \in D : Len(fin[d]) > Len(s.raw[d]) THEN {"extra-strands"} ELSE {})
PFails(s, ev) ==
  CASE ev.k = "sched" -> (IF ~ev.rest THEN {"configuration-changed"} ELSE {})
    [] ev.k = "done" -> IF Len(s.fin) # Len(s.dev) THEN {"trackers"} ELSE Handoffs(s, s.fin) \cup (IF ~ev.same THEN {"not-reproducible"} ELSE {})
    [] ev.k = "err" -> {"error"}
    [] OTHER -> {}
PApply(s, ev) == IF ev.k = "net" THEN Net(ev.dev) ELSE IF ev.k = "sched" THEN [s EXCEPT !.fin = Append(@, ev.strands)] ELSE s
====
