---- MODULE P16 ----
(* Tracking arcs and files.  The arc is the set of cells <<epoch, tracker, type, value>> (values as their bits).  Writing keeps the   *)
(* cells whose epoch is in the window; reading returns those, under the trackers' aliases, in time order, one measurement per      *)
(* epoch and tracker.  near: for formats which round, the value is that of the cell within the format's resolution.               *)
EXTENDS Time, FiniteSets, TLC
Set(q) == {q[n] : n \in 1..Len(q)}
Cells(q) == UNION {{<<q[n].t, q[n].trk, c[1], c[2]>> : c \in Set(q[n].d)} : n \in 1..Len(q)}
Keys(S) == {<<c[1], c[2], c[3]>> : c \in S}
AboveLo(t, b) == b = <<>> \/ TLe(b[1], t)
BelowHi(t, b) == b = <<>> \/ TLe(t, b[1])
Alias(s, trk) == IF \E x \in Set(s.alias) : x[1] = trk THEN (CHOOSE x \in Set(s.alias) : x[1] = trk)[2] ELSE trk
\* what the file holds
Held(s) == {c \in Cells(s.arc) : AboveLo(c[1], s.lo) /\ BelowHi(c[1], s.hi)}
Want(s) == {<<c[1], Alias(s, c[2]), c[3], c[4]>> : c \in Held(s)}
PBegin(ev) == [arc |-> ev.arc, lo |-> ev.lo, hi |-> ev.hi, alias |-> ev.alias, bad |-> ev.bad, exact |-> ev.exact]
InOrder(q) == \A n \in 1..Len(q) - 1 : TLe(q[n].t, q[n + 1].t)
PFails(s, ev) ==
  CASE ev.k = "err" -> IF s.bad \/ Held(s) = {} THEN {} ELSE {"spurious-error"}
    [] ev.k = "read" ->
       LET got == Cells(ev.out) IN
       (IF s.bad THEN {"malformed-input-accepted"} ELSE {})
       \cup (IF ~(Keys(got) \subseteq Keys(Want(s))) THEN {"invented"} ELSE {})
       \cup (IF ~(Keys(Want(s)) \subseteq Keys(got)) THEN {"lost"} ELSE {})
       \cup (IF s.exact /\ got # Want(s) /\ Keys(got) = Keys(Want(s)) THEN {"value"} ELSE {})
       \cup (IF ~s.exact /\ ~ev.near THEN {"value"} ELSE {})
       \cup (IF ~InOrder(ev.out) THEN {"order"} ELSE {})
       \cup (IF Cardinality({<<ev.out[n].t, ev.out[n].trk>> : n \in 1..Len(ev.out)}) # Len(ev.out) THEN {"duplicate"} ELSE {})
       \cup (IF ~ev.mod THEN {"modulus"} ELSE {})
    [] OTHER -> {}
PApply(s, ev) == s
====
