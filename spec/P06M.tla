---- MODULE P06M ----
(* Design model of the edits on small trajectories of whole-second epochs: sort-then-dedup finalisation, filters, merges.      *)
EXTENDS P06, Json
CONSTANTS Tm, MaxLen, MaxOps
VARIABLES t, ev, obs, ops
vars == <<t, ev, obs, ops>>
S(n) == <<n, 0>>
St(n, tag) == <<S(n), tag>>
RECURSIVE SortU(_)
SortU(q) == IF q = <<>> THEN <<>>
            ELSE LET m == CHOOSE j \in 1..Len(q) : \A h \in 1..Len(q) : TLe(q[j][1], q[h][1]) /\ (q[j][1] = q[h][1] => j <= h) IN
                 <<q[m]>> \o SortU(SelectSeq(q, LAMBDA x : x[1] # q[m][1]))
Raws == UNION {[1..n -> {St(k, "a") : k \in 0..Tm}] : n \in 1..MaxLen}
Bnds == {<<"u", S(0)>>} \cup ({"i", "e"} \X {S(k) : k \in 0..Tm})
Init == t = <<>> /\ ev = [k |-> "build", raw |-> <<>>, out |-> <<>>] /\ obs = PBegin(0) /\ ops = <<>>
Do(e, name) == ev' = e /\ obs' = PApply(obs, ev) /\ ops' = Append(ops, name) /\ t' = (IF "out" \in DOMAIN e THEN e.out ELSE t)
Build == ops = <<>> /\ \E r \in Raws : Do([k |-> "build", raw |-> r, out |-> SortU(r)], "build")
Edit == /\ ops # <<>> /\ Len(ops) < MaxOps
        /\ \/ \E lo \in Bnds, hi \in Bnds : Do([k |-> "epoch", lo |-> lo, hi |-> hi, out |-> Keep(t, lo, hi)], "epoch")
           \/ \E lo \in Bnds, hi \in Bnds : Do([k |-> "offset", lo |-> lo, hi |-> hi, out |-> KeepOff(t, lo, hi)], "offset")
           \/ t # <<>> /\ \E d \in 1..2 : Do([k |-> "resample", ok |-> TRUE, step |-> S(d), same |-> TRUE,
                   out |-> LET g == Grid(t[1][1], t[Len(t)][1], S(d)) IN [j \in 1..Len(g) |-> <<g[j], "r">>]], "resample")
           \/ t # <<>> /\ \E r \in {<<St(1, "b")>>, <<St(0, "b"), St(Tm, "b")>>} : Do([k |-> "merge", ok |-> TRUE, mismatch |-> FALSE, other |-> r, out |-> Merge(t, r)], "merge")
           \/ t # <<>> /\ Do([k |-> "rebuild", ok |-> TRUE, same |-> TRUE, eps |-> <<t[Len(t)][1], t[1][1], t[Len(t)][1]>>,
                   out |-> SortU(<<<<t[Len(t)][1], "c">>, <<t[1][1], "c">>, <<t[Len(t)][1], "c">>>>)], "rebuild")
Next == Build \/ Edit
Spec == Init /\ [][Next]_vars
Conforms == PFails(obs, ev) = {}
Ordered == TIncreasing(Ep(t))
(* scenarios: the sequences of kinds of edits (one per distinct abstract history) *)
View == <<t, ev, obs, ops>>
Emit == (Len(ops) = MaxOps /\ Len(t) = 0) => PrintT("SCEN " \o ToJson([ops |-> ops]))
EmitAll == Len(ops) = MaxOps => PrintT("SCEN " \o ToJson([ops |-> ops]))
====
