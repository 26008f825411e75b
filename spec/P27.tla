---- MODULE P27 ----
(* Trajectories and orbit determination solutions in files.  eps: the epochs of the entries, in order (a solution may repeat one).   *)
(* Without a step the file holds the entries of the window; with a step, the grid anchored at the start of the window clipped to    *)
(* the span.  What is read back is that, entry by entry: diff names the parts of an entry which came back different.               *)
EXTENDS Time, FiniteSets, TLC
RECURSIVE Grid(_, _, _)
Grid(a, b, d) == IF TLt(b, a) THEN <<>> ELSE <<a>> \o Grid(TAdd(a, d), b, d)
(* "also": the span of the other trajectory of a difference, which has the epochs both of them have *)
PBegin(ev) == [eps |-> ev.eps, lo |-> ev.lo, hi |-> ev.hi, step |-> ev.step, bad |-> ev.bad, also |-> IF "also" \in DOMAIN ev THEN ev.also ELSE <<>>]
InWin(s, t) == (s.lo = <<>> \/ TLe(s.lo[1], t)) /\ (s.hi = <<>> \/ TLe(t, s.hi[1]))
First0(s) == IF s.lo = <<>> THEN s.eps[1] ELSE TMax(s.lo[1], s.eps[1])
Final0(s) == IF s.hi = <<>> THEN s.eps[Len(s.eps)] ELSE TMin(s.hi[1], s.eps[Len(s.eps)])
First(s) == IF s.also = <<>> THEN First0(s) ELSE TMax(First0(s), s.also[1])
Final(s) == IF s.also = <<>> THEN Final0(s) ELSE TMin(Final0(s), s.also[2])
Want(s) == IF s.eps = <<>> THEN <<>> ELSE IF s.step = <<>> THEN SelectSeq(s.eps, LAMBDA t : InWin(s, t)) ELSE Grid(First(s), Final(s), s.step[1])
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.bad \/ Want(s) = <<>> THEN {} ELSE {"spurious-error"}
    [] ev.k = "read" ->
       (IF s.bad THEN {"malformed-accepted"} ELSE {})
       \cup (IF ev.eps # Want(s) THEN {"epochs"} ELSE {})
       \cup {"altered-" \o ev.diff[n] : n \in 1..Len(ev.diff)}
    [] OTHER -> {}
(* "of": the epochs of a solution, once it is computed *)
PApply(s, ev) == IF ev.k = "of" THEN [s EXCEPT !.eps = ev.eps] ELSE s
====
