---- MODULE P09 ----
(* Sequential processing of a tracking arc.  ms: the measurements in time order [t, w, flag, silent]: w is the sequence of     *)
(* windows of measurement types the tracker's device has data for (each a sequence of type names), flag that the measurement is *)
(* marked rejected beforehand, silent that the tracker is unknown or does not see the vehicle.  The solution is a sequence of    *)
(* entries: one per window of every measurement that is not silent or flagged, one time update for a flagged one, and time       *)
(* updates in between so that no step exceeds max.                                                                              *)
EXTENDS Time, TLC
PBegin(ev) == [ms |-> ev.ms, max |-> ev.max, t |-> ev.t, node |-> ev.t, m |-> 1, w |-> 1, bad |-> ev.bad, pred |-> ev.pred, end |-> ev.end, first |-> TRUE]
Entries(x) == IF x.silent THEN 0 ELSE IF x.flag THEN 1 ELSE Len(x.w)
\* the next measurement that has to appear, Len+1 if none
Pend(s) == LET c == {j \in s.m..Len(s.ms) : Entries(s.ms[j]) >= (IF j = s.m THEN s.w ELSE 1)} IN IF c = {} THEN Len(s.ms) + 1 ELSE CHOOSE j \in c : \A k \in c : j <= k
PendW(s) == IF Pend(s) = s.m THEN s.w ELSE 1
\* the last epoch the process stopped at before time t: an entry or a silent measurement
Silents(s, t) == {j \in s.m..Len(s.ms) : Entries(s.ms[j]) = 0 /\ TLt(s.t, s.ms[j].t) /\ TLe(s.ms[j].t, t)}
Nodes(s, t) == {s.t} \cup {s.ms[j].t : j \in Silents(s, t)}
\* largest gap between consecutive stops from the last entry up to t
MaxGapOk(s, t) == LET n == Nodes(s, t) \cup {t} IN \A a \in n : a = t \/ (\E b \in n : TLt(a, b) /\ TLe(TSub(b, a), s.max)) \/ ~(\E b \in n : TLt(a, b))
Num(ev) == (IF ev.nom > 1000 THEN {"not-continued-from-previous-estimate"} ELSE {}) \cup (IF ev.stm > 1000 THEN {"transition-matrix-not-from-previous-estimate"} ELSE {})
Order(s, ev) == IF TLt(ev.t, s.t) THEN {"out-of-order"} ELSE {}
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.bad THEN {} ELSE {"spurious-error"}
    [] ev.k = "len" -> IF ev.n = <<ev.n[1], ev.n[1], ev.n[1], ev.n[1]>> THEN {} ELSE {"misaligned"}
    [] ev.k = "tu" ->
       IF s.bad THEN {"invalid-input-processed"} ELSE
       IF s.pred THEN Order(s, ev) \cup Num(ev) \cup (IF TLt(s.end, ev.t) /\ ~s.first THEN {"beyond-the-end"} ELSE {}) \cup (IF ~s.first /\ TLt(s.max, TSub(ev.t, s.t)) THEN {"step-too-long"} ELSE {})
       ELSE LET p == Pend(s) IN
            Order(s, ev) \cup Num(ev)
            \cup (IF p > Len(s.ms) THEN IF TLt(s.ms[Len(s.ms)].t, ev.t) THEN {"time-update-after-the-arc"} ELSE {}
                  ELSE IF TLt(s.ms[p].t, ev.t) THEN {"measurement-skipped"}
                  ELSE IF ev.t = s.ms[p].t /\ ~s.ms[p].flag THEN {"time-update-instead-of-measurement"} ELSE {})
            \cup (IF ~MaxGapOk(s, ev.t) THEN {"step-too-long"} ELSE {})
    [] ev.k = "msr" ->
       LET p == Pend(s) IN
       IF s.bad THEN {"invalid-input-processed"}
       ELSE IF s.pred \/ p > Len(s.ms) THEN {"measurement-twice-or-invented"}
       ELSE LET x == s.ms[p] IN
            Order(s, ev) \cup Num(ev)
            \cup (IF x.flag THEN {"flagged-measurement-used"} ELSE {})
            \cup (IF ev.t # x.t THEN {"measurement-epoch"} ELSE {})
            \cup (IF ev.rt # ev.t THEN {"residual-epoch"} ELSE {})
            \cup (IF ev.trk # x.trk THEN {"measurement-of-wrong-tracker"} ELSE {})
            \cup (IF ~x.flag /\ ev.ty # x.w[PendW(s)] THEN {"measurement-types"} ELSE {})
            \cup (IF ev.obs > 1 THEN {"observation-altered"} ELSE {})
            \cup (IF ev.gain = ev.rej THEN {"gain-misaligned"} ELSE {})
            \cup (IF ev.pre = ev.rej THEN {} ELSE {"prediction-mark-misaligned"})
            \cup (IF ~MaxGapOk(s, ev.t) THEN {"step-too-long"} ELSE {})
    [] ev.k = "done" -> (IF s.bad THEN {"invalid-input-processed"} ELSE {})
                        \cup (IF Pend(s) <= Len(s.ms) THEN {"measurement-lost"} ELSE {})
                        \cup (IF s.pred /\ ~(s.t = s.end \/ TLe(s.end, s.node)) THEN {"prediction-short-of-the-end"} ELSE {})
PApply(s, ev) ==
  CASE ev.k = "tu" -> LET p == Pend(s) IN
                      IF p <= Len(s.ms) /\ s.ms[p].flag /\ ev.t = s.ms[p].t THEN [s EXCEPT !.t = ev.t, !.m = p + 1, !.w = 1, !.first = FALSE] ELSE [s EXCEPT !.t = ev.t, !.first = FALSE]
    [] ev.k = "msr" -> [s EXCEPT !.t = ev.t, !.m = Pend(s), !.w = PendW(s) + 1, !.first = FALSE]
    [] OTHER -> s
====
