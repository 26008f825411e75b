---- MODULE P14M ----
(* Design model: the strands of up to three trackers are visited by start; the one being tracked is compared with the next.        *)
EXTENDS P14, Json, SequencesExt
CONSTANTS End, Hands, Samps
VARIABLES devs, pend, cur, done, pc
vars == <<devs, pend, cur, done, pc>>
Win == {[a |-> a, b |-> b] : a \in 0..End, b \in 0..End}
Wins == {w \in Win : w.b > w.a}
T(x) == <<x, 0>>
Dev(h, sm, ws) == [hand |-> h, samp |-> T(sm), cad |-> FALSE, on |-> TZ, off |-> TZ, min |-> 1, win |-> [n \in 1..Len(ws) |-> [a |-> T(ws[n].a), b |-> T(ws[n].b), ra |-> T(ws[n].a), rb |-> T(ws[n].b)]]]
Third == Dev("G", 1, <<[a |-> 1, b |-> 3]>>)
Init == /\ devs \in {<<Dev(h1, s1, <<w1>>), Dev(h2, 1, <<w2>>), Dev(h3, 1, <<w3>>)>> : h1 \in Hands, h2 \in Hands, h3 \in Hands, s1 \in Samps, w1 \in Wins, w2 \in Wins, w3 \in {w \in Wins : w.a = 1}}
        /\ pend = UNION {{[d |-> d, a |-> r.a, b |-> r.b] : r \in Rng(Raw(devs[d]))} : d \in 1..3}
        /\ cur = <<>> /\ done = <<>> /\ pc = "go"
S0 == [dev |-> devs, raw |-> [d \in 1..3 |-> Raw(devs[d])], fin |-> <<>>]
First == {x \in pend : \A y \in pend : TLe(x.a, y.a)}
Put(x) == done' = Append(done, x)
Take == /\ pc = "go" /\ pend # {}
        /\ \E x \in First :
           IF cur = <<>> THEN cur' = <<x>> /\ pend' = pend \ {x} /\ UNCHANGED done
           ELSE LET c == cur[1] h == devs[c.d].hand IN
             IF ~TLe(x.a, c.b) \/ h \in {"O", "F"} THEN Put(c) /\ cur' = <<x>> /\ pend' = pend \ {x}
             ELSE IF h = "G" THEN LET a == TAdd(c.b, devs[x.d].samp) IN UNCHANGED <<cur, done>> /\ pend' = (pend \ {x}) \cup (IF TLe(a, x.b) THEN {[x EXCEPT !.a = a]} ELSE {})
             ELSE LET e == TSub(x.a, devs[c.d].samp) IN cur' = <<x>> /\ pend' = pend \ {x} /\ (IF TLe(c.a, e) THEN Put([c EXCEPT !.b = e]) ELSE UNCHANGED done)
        /\ UNCHANGED <<devs, pc>>
Fin == pc = "go" /\ pend = {} /\ pc' = "end" /\ done' = done \o cur /\ UNCHANGED <<devs, pend, cur>>
Next == Take \/ Fin
Spec == Init /\ [][Next]_vars
FinOf(d) == LET q == SelectSeq(done, LAMBDA x : x.d = d) IN [n \in 1..Len(q) |-> [a |-> q[n].a, b |-> q[n].b]]
Conforms == pc = "end" => Handoffs(S0, [d \in 1..3 |-> FinOf(d)]) = {}
\* someone tracks whenever someone could, but for the pauses of one sampling at a handoff
Emit == pc = "end" /\ (\A d \in 1..3 : devs[d].win[1].a = T(1) /\ devs[d].win[1].b = T(2)) => PrintT("SCEN " \o ToJson([hands |-> [d \in 1..3 |-> devs[d].hand], samp |-> devs[1].samp[1]]))
====
