---- MODULE P17M ----
(* Design model: W workers take draws in any order, each run succeeds or fails on its own, results arrive over a channel in any      *)
(* order and are sorted by index once all workers are done.                                                                          *)
EXTENDS P17, Json
CONSTANTS MaxN, MaxSkip, MaxW
VARIABLES n, skip, w, bad, todo, busy, chan, out, pc
vars == <<n, skip, w, bad, todo, busy, chan, out, pc>>
Str(k) == ToString(k)
Draw(k) == [d |-> Str(k), ok |-> ~(k \in bad), h |-> IF k \in bad THEN "" ELSE "r" \o Str(k), first |-> Str(k), last |-> Str(k), every |-> <<Str(k)>>, between |-> <<>>, raw |-> <<>>, stepped |-> <<>>, disp |-> <<>>]
S0 == PBegin([draws |-> [k \in 1..skip + n |-> Draw(k)], dflt |-> <<>>, win |-> FALSE])
Init == /\ n \in 0..MaxN /\ skip \in 0..MaxSkip /\ w \in 1..MaxW /\ bad \in SUBSET (1..skip + n)
        /\ todo = {<<k, skip + k + 1>> : k \in 0..n - 1} /\ busy = {} /\ chan = <<>> /\ out = <<>> /\ pc = "run"
Take == /\ pc = "run" /\ Cardinality(busy) < w /\ \E t \in todo : (todo' = todo \ {t} /\ busy' = busy \cup {t})
        /\ UNCHANGED <<n, skip, w, bad, chan, out, pc>>
Send == /\ pc = "run" /\ \E t \in busy : (busy' = busy \ {t} /\ chan' = Append(chan, <<t[1], Draw(t[2]).d, Draw(t[2]).h>>))
        /\ UNCHANGED <<n, skip, w, bad, todo, out, pc>>
Sort == /\ pc = "run" /\ todo = {} /\ busy = {} /\ pc' = "done"
        /\ out' = [k \in 1..Len(chan) |-> chan[CHOOSE j \in 1..Len(chan) : Cardinality({i \in 1..Len(chan) : chan[i][1] < chan[j][1]}) = k - 1]]
        /\ UNCHANGED <<n, skip, w, bad, todo, busy, chan>>
Next == Take \/ Send \/ Sort
Spec == Init /\ [][Next]_vars
Conforms == pc = "done" => PFails(S0, [k |-> "res", skip |-> skip, n |-> n, got |-> out, name |-> TRUE]) = {}
\* without the sort, some schedules would be seen
Unsorted == pc = "done" /\ chan # out => PFails(S0, [k |-> "res", skip |-> skip, n |-> n, got |-> chan, name |-> TRUE]) # {}
NoLoss == Cardinality(todo) + Cardinality(busy) + Len(chan) = n
Emit == pc = "run" /\ chan = <<>> /\ busy = {} /\ Cardinality(todo) = n /\ bad = {} => PrintT("SCEN " \o ToJson([n |-> n, skip |-> skip, w |-> w]))
====
