---- MODULE P15M ----
(* Design model: sequences of edits on small arcs.  The algebra a user relies on: selecting and excluding are complementary,       *)
(* edits are idempotent, commute where they should, and never break the order.                                                    *)
EXTENDS P15, Json, SequencesExt
CONSTANTS Ts, Depth
VARIABLES arc0, a, ops
vars == <<arc0, a, ops>>
T(x) == <<x, 0>>
Ms == {[t |-> T(t), trk |-> k, d |-> d, rej |-> FALSE] : t \in Ts, k \in {"A", "B"}, d \in {{<<"R", 1>>}, {<<"R", 1>>, <<"D", 2>>}, {<<"D", 2>>}}}
LtM(x, y) == TLt(x.t, y.t) \/ (x.t = y.t /\ x.trk = "A" /\ y.trk = "B")
Pairs == {<<x, y>> : x \in Ms, y \in Ms}
Arcs == {<<>>} \cup {<<x>> : x \in Ms} \cup {p \in Pairs : LtM(p[1], p[2])}
        \cup {<<p[1], p[2], [t |-> T(4), trk |-> "B", d |-> {<<"R", 5>>, <<"D", 6>>}, rej |-> FALSE]>> : p \in {q \in Pairs : LtM(q[1], q[2])}}
Bs == {[k |-> "un", t |-> T(0)]} \cup {[k |-> k, t |-> T(t)] : k \in {"in", "ex"}, t \in Ts}
Ops == {[op |-> o, lo |-> l, hi |-> h] : o \in {"filter-epoch", "exclude-epoch", "reject-epoch", "filter-offset"}, l \in Bs, h \in Bs}
       \cup {[op |-> o, arg |-> x] : o \in {"filter-tracker", "exclude-tracker", "reject-tracker"}, x \in {"A", "B"}}
       \cup {[op |-> o, arg |-> x] : o \in {"filter-type", "exclude-type"}, x \in {"R", "D"}}
Init == arc0 \in Arcs /\ a = arc0 /\ ops = <<>>
Next == /\ Len(ops) < Depth /\ \E o \in Ops : ops' = Append(ops, o) /\ a' = Expect(a, o) /\ UNCHANGED arc0
Spec == Init /\ [][Next]_vars
InOrder == Sorted(a)
NothingNew == \A m \in Set(a) : \E x \in Set(arc0) : x.t = m.t /\ x.trk = m.trk /\ m.d \subseteq x.d /\ m.d # {} /\ (x.rej => m.rej)
Complement == Len(ops) = Depth - 1 => \A l \in Bs : \A h \in Bs :
   LET f == Expect(a, [op |-> "filter-epoch", lo |-> l, hi |-> h]) e == Expect(a, [op |-> "exclude-epoch", lo |-> l, hi |-> h])
   IN Set(f) \cup Set(e) = Set(a) /\ Set(f) \cap Set(e) = {} /\ MergeOk(f \o e, a)
Idempotent == \A o \in Ops : (ops # <<>> /\ ops[Len(ops)] = o /\ o.op # "filter-offset") => Expect(a, o) = a
Small == {o \in Ops : (("lo" \in DOMAIN o) => (o.lo.t = T(1) \/ o.lo.k = "un") /\ o.hi.t = T(2))}
Emit == (Len(ops) = Depth /\ Len(arc0) = 3 /\ arc0[1].d # {<<"D", 2>>}) => PrintT("SCEN " \o ToJson([arc |-> [n \in 1..Len(arc0) |-> [t |-> arc0[n].t[1], trk |-> arc0[n].trk, d |-> SetToSeq(arc0[n].d)]], ops |-> ops]))
====
