---- MODULE P09M ----
(* Design model: the advance loop (step = min(gap, max)), one entry per window, over every arc of up to N measurements with     *)
(* every spacing in Gaps and every kind of measurement.                                                                        *)
EXTENDS P09, Json
CONSTANTS N, Gaps, Max
VARIABLES arc, pc, now, j, out
vars == <<arc, pc, now, j, out>>
\* one: one window; two: two windows; part: the first window has no data; flag: marked rejected; none: unknown tracker or not visible
Kinds == {"one", "two", "part", "flag", "none"}
Win(k) == CASE k = "one" -> <<<<"a">>>> [] k = "two" -> <<<<"a">>, <<"b">>>> [] k = "part" -> <<<<"b">>>> [] OTHER -> <<<<"a">>>>
RECURSIVE At(_, _)
At(a, n) == IF n = 0 THEN 0 ELSE At(a, n - 1) + a[n].g
Ms == [n \in 1..Len(arc) |-> [t |-> <<At(arc, n), 0>>, w |-> Win(arc[n].kd), flag |-> arc[n].kd = "flag", silent |-> arc[n].kd = "none", trk |-> "T"]]
Init == /\ arc \in UNION {[1..n -> [g : Gaps, kd : Kinds]] : n \in 2..N} /\ pc = "go" /\ now = 0 /\ j = 1 /\ out = <<>>
E(k, t, ty) == IF k = "tu" THEN [k |-> "tu", t |-> <<t, 0>>, nom |-> 0, stm |-> 0]
               ELSE [k |-> "msr", t |-> <<t, 0>>, rt |-> <<t, 0>>, trk |-> "T", ty |-> ty, obs |-> 0, gain |-> TRUE, rej |-> FALSE, pre |-> FALSE, nom |-> 0, stm |-> 0]
MinI(a, b) == IF a < b THEN a ELSE b
Adv == /\ pc = "go" /\ j <= Len(arc)
       /\ LET d == At(arc, j) - now  s == MinI(d, Max)  t == now + s IN
          /\ now' = t
          /\ IF s < d THEN out' = Append(out, E("tu", t, <<>>)) /\ j' = j
             ELSE LET x == Ms[j] IN
                  /\ j' = j + 1
                  /\ out' = IF x.silent THEN out ELSE IF x.flag THEN Append(out, E("tu", t, <<>>)) ELSE out \o [n \in 1..Len(x.w) |-> E("msr", t, x.w[n])]
       /\ UNCHANGED <<arc, pc>>
Fin == pc = "go" /\ j > Len(arc) /\ pc' = "done" /\ UNCHANGED <<arc, now, j, out>>
Next == Adv \/ Fin
Spec == Init /\ [][Next]_vars
S0 == [ms |-> Ms, max |-> <<Max, 0>>, t |-> <<0, 0>>, node |-> <<0, 0>>, m |-> 1, w |-> 1, bad |-> FALSE, pred |-> FALSE, end |-> <<0, 0>>, first |-> TRUE]
RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN [s |-> s, f |-> {}] ELSE LET f == PFails(s, Head(q)) IN IF f # {} THEN [s |-> s, f |-> f] ELSE Fold(PApply(s, Head(q)), Tail(q))
Conforms == Fold(S0, out \o (IF pc = "done" THEN <<[k |-> "done"]>> ELSE <<>>)).f = {}
(* dropping, repeating or reordering a measurement entry is never a behaviour of the specification *)
RECURSIVE DropAt(_, _)
DropAt(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
NoLoss == pc = "done" => \A n \in 1..Len(out) : out[n].k = "msr" => Fold(S0, DropAt(out, n) \o <<[k |-> "done"]>>).f # {}
NoDup == pc = "done" => \A n \in 1..Len(out) : out[n].k = "msr" => Fold(S0, SubSeq(out, 1, n) \o SubSeq(out, n, Len(out)) \o <<[k |-> "done"]>>).f # {} \/ (n < Len(out) /\ out[n+1] = out[n])
Emit == pc = "done" => PrintT("SCEN " \o ToJson([arc |-> arc, max |-> Max]))
====
