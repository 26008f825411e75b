---- MODULE P05 ----
(* Trajectory queries.  eps: the sampled epochs (strictly increasing), bits: a fingerprint of each sample.                    *)
(* An answer is exactly a sample, or an interpolation at exactly the queried epoch, or an error, depending only on where the  *)
(* query falls; iterating visits exactly the grid anchored at the clipped start.                                              *)
EXTENDS Time, FiniteSets, TLC
PBegin(ev) == [eps |-> ev.eps, bits |-> ev.bits, tol |-> ev.tol]
First(s) == s.eps[1]
Final(s) == s.eps[Len(s.eps)]
Inside(s, q) == TLe(First(s), q) /\ TLe(q, Final(s))
SampleAt(s, q) == {j \in 1..Len(s.eps) : s.eps[j] = q}
RECURSIVE Grid(_, _, _)
Grid(a, b, d) == IF TLt(b, a) THEN <<>> ELSE <<a>> \o Grid(TAdd(a, d), b, d)
PFails(s, ev) ==
  CASE ev.k = "at" ->
      (IF ~Inside(s, ev.q) THEN (IF ev.ok THEN {"extrapolated"} ELSE {})
       ELSE IF ~ev.ok THEN {"no-answer-inside-span"}
       ELSE (IF ev.ep # ev.q THEN {"answer-at-another-epoch"} ELSE {})
            \cup (IF SampleAt(s, ev.q) # {}
                  THEN (IF \A j \in SampleAt(s, ev.q) : s.bits[j] = ev.bits THEN {} ELSE {"sample-altered"})
                  ELSE (IF ev.dr > s.tol \/ ev.dv > s.tol THEN {"interpolation-off"} ELSE {})
                       \cup (IF ev.dm > 10 THEN {"propellant-not-between-its-neighbours"} ELSE {})
                       \cup (IF ~ev.rest THEN {"vehicle-altered"} ELSE {})))
    [] ev.k = "grid" ->
      LET want == Grid(TMax(ev.start, First(s)), TMin(ev.stop, Final(s)), ev.step) IN
      (IF ev.eps # want THEN {"grid"} ELSE {}) \cup (IF ~ev.same THEN {"grid-states-differ-from-queries"} ELSE {})
    [] ev.k = "ends" -> (IF ev.first # First(s) \/ ev.last # Final(s) \/ ev.fb # s.bits[1] \/ ev.lb # s.bits[Len(s.bits)] THEN {"first-last"} ELSE {})
PApply(s, ev) == s
====
