---- MODULE P06 ----
(* Trajectory edits.  A trajectory is a sequence of <<epoch, fingerprint>>.  Every edit determines its result.                 *)
EXTENDS Time, FiniteSets, TLC
PBegin(ev) == [t |-> <<>>]
RECURSIVE Grid(_, _, _)
Grid(a, b, d) == IF TLt(b, a) THEN <<>> ELSE <<a>> \o Grid(TAdd(a, d), b, d)
Ep(t) == [j \in 1..Len(t) |-> t[j][1]]
EpSet(t) == {t[j][1] : j \in 1..Len(t)}
PairSet(t) == {t[j] : j \in 1..Len(t)}
LoOk(b, e) == b[1] = "u" \/ (b[1] = "i" /\ TLe(b[2], e)) \/ (b[1] = "e" /\ TLt(b[2], e))
HiOk(b, e) == b[1] = "u" \/ (b[1] = "i" /\ TLe(e, b[2])) \/ (b[1] = "e" /\ TLt(e, b[2]))
Shift(b, e) == IF b[1] = "u" THEN b ELSE <<b[1], TAdd(b[2], e)>>
Keep(t, lo, hi) == SelectSeq(t, LAMBDA x : LoOk(lo, x[1]) /\ HiOk(hi, x[1]))
KeepOff(t, lo, hi) == IF t = <<>> THEN t ELSE Keep(t, Shift(lo, t[1][1]), Shift(hi, t[1][1]))
Merge(a, b) == a \o SelectSeq(b, LAMBDA x : TLt(a[Len(a)][1], x[1]))
PFails(s, ev) ==
  CASE ev.k = "build" -> (IF ~TIncreasing(Ep(ev.out)) THEN {"not-ordered-or-duplicates"} ELSE {})
                         \cup (IF EpSet(ev.out) # EpSet(ev.raw) THEN {"epochs-lost-or-invented"} ELSE {})
                         \cup (IF ~(PairSet(ev.out) \subseteq PairSet(ev.raw)) THEN {"state-altered"} ELSE {})
    [] ev.k = "epoch" -> (IF ev.out # Keep(s.t, ev.lo, ev.hi) THEN {"filter-by-epoch"} ELSE {})
    [] ev.k = "offset" -> (IF ev.out # KeepOff(s.t, ev.lo, ev.hi) THEN {"filter-by-offset"} ELSE {})
    [] ev.k = "resample" ->
         (IF s.t = <<>> THEN (IF ev.ok THEN {"empty-resampled"} ELSE {})
          ELSE IF ~ev.ok THEN {"resample-failed"}
          ELSE (IF Ep(ev.out) # Grid(s.t[1][1], s.t[Len(s.t)][1], ev.step) THEN {"resampled-epochs"} ELSE {})
               \cup (IF ~ev.same THEN {"resampled-states-differ"} ELSE {}))
    [] ev.k = "rebuild" ->
         (LET can == s.t # <<>> /\ \A j \in 1..Len(ev.eps) : TLe(s.t[1][1], ev.eps[j]) /\ TLe(ev.eps[j], s.t[Len(s.t)][1]) IN
          IF ~can THEN (IF ev.ok THEN {"rebuilt-outside-span"} ELSE {})
          ELSE IF ~ev.ok THEN {"rebuild-failed"}
          ELSE (IF ~TIncreasing(Ep(ev.out)) THEN {"not-ordered-or-duplicates"} ELSE {})
               \cup (IF EpSet(ev.out) # {ev.eps[j] : j \in 1..Len(ev.eps)} THEN {"rebuilt-epochs"} ELSE {})
               \cup (IF ~ev.same THEN {"rebuilt-states-differ"} ELSE {}))
    [] ev.k = "merge" ->
         (IF ev.mismatch THEN (IF ev.ok THEN {"merged-frames"} ELSE {})
          ELSE IF ~ev.ok THEN {"merge-failed"} ELSE (IF ev.out # Merge(s.t, ev.other) THEN {"merge"} ELSE {}))
    [] ev.k = "frame" -> (IF ~ev.ok THEN {"frame-failed"} ELSE (IF ev.eps # Ep(s.t) THEN {"frame-epochs"} ELSE {}) \cup (IF ev.back > 10 THEN {"frame-state"} ELSE {}))
PApply(s, ev) == CASE ev.k = "build" -> [t |-> ev.out] [] ev.k \in {"epoch", "offset"} -> [t |-> ev.out]
                   [] ev.k \in {"resample", "rebuild", "merge"} -> (IF ev.ok THEN [t |-> ev.out] ELSE s) [] OTHER -> s
====
