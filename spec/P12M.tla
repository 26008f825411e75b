---- MODULE P12M ----
(* Design model: every pair of solutions of up to N and K entries over two trackers, two types and a few epochs; a machine which   *)
(* answers each query by one pass over its entries, and a merge by repeatedly taking the earliest head.                            *)
EXTENDS P12, Json
CONSTANTS N, K
VARIABLES a, b, i, j, out, drop, acc
vars == <<a, b, i, j, out, drop, acc>>
Kinds == {"tu", "A1", "A2", "B1", "rA1"}
Gap == {0, 1}
Sols(n) == UNION {[1..m -> [g : Gap, kd : Kinds]] : m \in 0..n}
RECURSIVE At(_, _)
At(q, n) == IF n = 0 THEN 0 ELSE At(q, n - 1) + q[n].g
En(q, n) == [t |-> <<At(q, n), 0>>, tu |-> q[n].kd = "tu", trk |-> IF q[n].kd = "B1" THEN "B" ELSE "A", ty |-> IF q[n].kd = "A2" THEN <<"2">> ELSE <<"1">>, rej |-> q[n].kd = "rA1", in |-> TRUE]
S0 == [sol |-> [n \in 1..Len(a) + Len(b) |-> IF n <= Len(a) THEN En(a, n) ELSE En(b, n - Len(a))], n |-> Len(a)]
Init == a \in Sols(N) /\ b \in Sols(K) /\ i = 1 /\ j = 1 /\ out = <<>> /\ drop = <<>> /\ acc = <<>>
TA == At(a, i)
TB == At(b, j)
TakeA == /\ i <= Len(a) /\ (IF j > Len(b) THEN TRUE ELSE TA <= TB) /\ out' = Append(out, i) /\ i' = i + 1
         /\ drop' = IF a[i].kd = "tu" THEN drop ELSE Append(drop, i)
         /\ acc' = IF a[i].kd \in {"tu", "rA1"} THEN acc ELSE Append(acc, i)
         /\ UNCHANGED <<a, b, j>>
TakeB == /\ j <= Len(b) /\ (IF i > Len(a) THEN TRUE ELSE TB < TA) /\ out' = Append(out, Len(a) + j) /\ j' = j + 1 /\ UNCHANGED <<a, b, i, drop, acc>>
Next == TakeA \/ TakeB
Spec == Init /\ [][Next]_vars
Done == i > Len(a) /\ j > Len(b)
Q(op, o) == [k |-> "q", op |-> op, out |-> o]
Conforms == Done => PFails(S0, Q("merge", out)) = {} /\ PFails(S0, Q("drop", drop)) = {} /\ PFails(S0, Q("acc", acc)) = {}
(* losing or repeating an entry is never an answer *)
NoLoss == Done /\ Len(out) > 0 => PFails(S0, Q("merge", Tail(out))) # {} /\ PFails(S0, Q("merge", <<out[1]>> \o out)) # {}
(* accepted and rejected entries partition the measurement entries; the parts by tracker and type cover them *)
W(op, trk, ty) == Want(S0, [op |-> op, trk |-> trk, ty |-> ty])
Rng(q) == {q[n] : n \in 1..Len(q)}
Partition == Done => /\ Rng(W("acc", "", "")) \cap Rng(W("rej", "", "")) = {} /\ Rng(W("acc", "", "")) \cup Rng(W("rej", "", "")) = Rng(W("drop", "", ""))
                     /\ UNION {Rng(W("part", p[1], p[2])) : p \in Pairs(S0)} = Rng(W("drop", "", ""))
Emit == Done /\ Len(a) = N /\ Len(b) = K => PrintT("SCEN " \o ToJson([a |-> a, b |-> b]))
====
