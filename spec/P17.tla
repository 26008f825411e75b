---- MODULE P17 ----
(* Monte Carlo.  s.draws[k] is what the k-th draw of the seeded generator has to lead to when propagated alone: d, the dispersed   *)
(* state; ok and h, its outcome; and the values a query shows of it.  A run of n draws after skip reports draws skip+1..skip+n, in  *)
(* that order, once each, under consecutive indexes, whatever the workers did; queries and files show each run's own values.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
PBegin(ev) == [draws |-> ev.draws, dflt |-> ev.dflt, win |-> ev.win]
Mine(s, ev) == SubSeq(s.draws, ev.skip + 1, ev.skip + ev.n)
\* indexes are consecutive; a resumed run may count from zero or from the number of skipped draws
Indexed(got, skip) == \E base \in {0, skip} : \A k \in 1..Len(got) : got[k][1] = base + k - 1
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Asked(s, run, q) ==
  IF ~run.ok THEN s.dflt
  ELSE CASE q = "first" -> <<run.first>> [] q = "last" -> <<run.last>> [] q = "every" -> run.every [] q = "between" -> run.between
         [] q \in {"first-none", "last-none"} -> s.dflt
Has(run, p) == \E n \in 1..Len(run.disp) : run.disp[n][1] = p
Val(run, p) == run.disp[CHOOSE n \in 1..Len(run.disp) : run.disp[n][1] = p][2]
\* rows of a file: [index, epoch, value]
Rows(run, q) == IF run.ok THEN (IF q = "raw" THEN run.raw ELSE run.stepped) ELSE <<>>
PFails(s, ev) ==
  CASE ev.k = "gen" ->
       LET m == Mine(s, ev) IN
       (IF Len(ev.got) # ev.n THEN {"draw-count"} ELSE {})
       \cup (IF Len(ev.got) = ev.n /\ (\E k \in 1..ev.n : ev.got[k][2] # m[k].d) THEN {"draw"} ELSE {})
       \cup (IF ~Indexed(ev.got, ev.skip) THEN {"draw-index"} ELSE {})
    [] ev.k = "res" ->
       LET m == Mine(s, ev) IN
       (IF Len(ev.got) # ev.n THEN {"run-count"} ELSE {})
       \cup (IF ~Indexed(ev.got, ev.skip) THEN {"run-index"} ELSE {})
       \cup (IF Len(ev.got) = ev.n THEN
              (IF \E k \in 1..ev.n : ev.got[k][2] # m[k].d THEN {"run-state"} ELSE {})
              \cup (IF \E k \in 1..ev.n : ev.got[k][3] # m[k].h THEN {"run-result"} ELSE {}) ELSE {})
       \cup (IF ~ev.name THEN {"scenario-name"} ELSE {})
    [] ev.k = "ask" -> LET m == Mine(s, ev) IN IF ev.got # Cat([k \in 1..ev.n |-> Asked(s, m[k], ev.q)]) THEN {"values-" \o ev.q} ELSE {}
    [] ev.k = "disp" -> LET m == Mine(s, ev) IN
       IF ev.ok # (\A k \in 1..ev.n : Has(m[k], ev.p)) THEN {"dispersion-availability"}
       ELSE IF ev.ok /\ ev.got # [k \in 1..ev.n |-> Val(m[k], ev.p)] THEN {"dispersion-values"} ELSE {}
    [] ev.k = "file" -> LET m == Mine(s, ev)
                            rows == Cat([k \in 1..ev.n |-> Rows(m[k], ev.q)])
                            idx == Cat([k \in 1..ev.n |-> [j \in 1..Len(Rows(m[k], ev.q)) |-> k - 1]]) IN
       IF ~ev.ok THEN (IF rows = <<>> THEN {} ELSE {"file-error"})
       ELSE (IF [j \in 1..Len(ev.got) |-> <<ev.got[j][2], ev.got[j][3]>>] # rows THEN {"file-rows"} ELSE {})
            \cup (IF Len(ev.got) = Len(rows) /\ ~(\E base \in {0, ev.skip} : \A j \in 1..Len(rows) : ev.got[j][1] = base + idx[j]) THEN {"file-index"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == s
====
