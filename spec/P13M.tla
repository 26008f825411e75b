---- MODULE P13M ----
(* Design model: up to two trackers with up to two strands each; the simulator walks the grid of each strand of each tracker and   *)
(* sorts what it gathered, joining what a tracker measured twice at the same epoch.                                              *)
EXTENDS P13, Json, SequencesExt, FiniteSetsExt
CONSTANTS Lst, Samps, Vis
VARIABLES cfg, d, n, k, got, pc
vars == <<cfg, d, n, k, got, pc>>
Strands == {[a |-> a, b |-> b] : a \in 0..Lst, b \in 0..Lst}
One == {[samp |-> sm, strands |-> s] : sm \in Samps, s \in UNION {[1..m -> {x \in Strands : x.b >= x.a}] : m \in 1..2}}
\* every strand at least as long as the sampling
Good(c) == \A x \in 1..Len(c.strands) : c.strands[x].b - c.strands[x].a >= c.samp
Init == cfg \in {<<x>> : x \in {c \in One : Good(c)}} \cup {<<x, [samp |-> 1, strands |-> <<[a |-> 1, b |-> 2]>>]>> : x \in {c \in One : Good(c)}}
        /\ d = 1 /\ n = 1 /\ k = 0 /\ got = {} /\ pc = "go"
Name(i) == IF i = 1 THEN "A" ELSE "B"
VisDef == <<{0, 1, 3, 4, 5}, {1, 2}>>
Sees(i, t) == t \in Vis[i]
T == cfg[d].strands[n].a + k * cfg[d].samp
Walk == /\ pc = "go" /\ T <= cfg[d].strands[n].b
        /\ got' = (IF Sees(d, T) THEN got \cup {<<T, d>>} ELSE got) /\ k' = k + 1 /\ UNCHANGED <<cfg, d, n, pc>>
Skip == /\ pc = "go" /\ T > cfg[d].strands[n].b /\ k' = 0
        /\ IF n < Len(cfg[d].strands) THEN n' = n + 1 /\ UNCHANGED <<d, pc>>
           ELSE IF d < Len(cfg) THEN n' = 1 /\ d' = d + 1 /\ UNCHANGED pc ELSE pc' = "done" /\ UNCHANGED <<n, d>>
        /\ UNCHANGED <<cfg, got>>
Next == Walk \/ Skip
Spec == Init /\ [][Next]_vars
S0 == PBegin([bad |-> FALSE, end |-> <<Lst + 1, 0>>, dev |-> [i \in 1..Len(cfg) |-> [name |-> Name(i), samp |-> <<cfg[i].samp, 0>>,
   strands |-> [j \in 1..Len(cfg[i].strands) |-> LET s == cfg[i].strands[j] IN [a |-> <<s.a, 0>>, b |-> <<s.b, 0>>,
      vis |-> [q \in 1..((s.b - s.a) \div cfg[i].samp) + 1 |-> IF Sees(i, s.a + (q - 1) * cfg[i].samp) THEN 1 ELSE 0]]]]]])
RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN {} ELSE LET f == PFails(s, Head(q)) IN IF f # {} THEN f ELSE Fold(PApply(s, Head(q)), Tail(q))
Sorted == SetToSortSeq(got, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
Ev(x) == [k |-> "m", t |-> <<x[1], 0>>, trk |-> Name(x[2]), types |-> TRUE, val |-> 0]
Fin == <<[k |-> "done", same |-> TRUE, other |-> TRUE]>>
Out == [i \in 1..Len(Sorted) |-> Ev(Sorted[i])]
Conforms == pc = "done" => Fold(S0, Out \o Fin) = {}
\* dropping any measurement, or repeating one, is not a behaviour
NoLoss == pc = "done" /\ Len(Out) > 0 => Fold(S0, Tail(Out) \o Fin) # {} /\ Fold(S0, <<Out[1]>> \o Out \o Fin) # {}
Emit == pc = "done" => PrintT("SCEN " \o ToJson([dev |-> cfg]))
====
