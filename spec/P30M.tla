---- MODULE P30M ----
(* Design model: positions on a line, tolerance 1 (arrival anywhere within 1 of the node).  The search moves the inner nodes.            *)
EXTENDS P30, Json
CONSTANTS MaxN, MaxIt, Slip
VARIABLES n, p, old, a, it, phase, i, obs, ev, hurt
vars == <<n, p, old, a, it, phase, i, obs, ev, hurt>>
Target == 2 * n
Nodes(m) == [k \in 1..m |-> 2 * k]
Init == /\ n \in 1..MaxN /\ p = Nodes(n) /\ old = Nodes(n) /\ a = [k \in 0..n |-> 0] /\ it = 0 /\ phase = "guess" /\ i = 1 /\ hurt = FALSE
        /\ obs = PBegin([n |-> n, bad |-> n < 3, must |-> FALSE]) /\ ev = [k |-> "none"]
Obs == obs' = IF ev.k = "none" THEN obs ELSE PApply(obs, ev)
Refuse == /\ phase = "guess" /\ n < 3 /\ Obs /\ ev' = [k |-> "refused"] /\ phase' = "end" /\ UNCHANGED <<n, p, old, a, it, i, hurt>>
Guess == /\ phase = "guess" /\ n >= 3 /\ Obs
         /\ ev' = [k |-> "node", i |-> i, t |-> 0, off |-> 0, end |-> 1000 * Abs(p[n] - Target)]
         /\ IF i = n THEN phase' = "search" /\ i' = 1 ELSE phase' = phase /\ i' = i + 1
         /\ UNCHANGED <<n, p, old, a, it, hurt>>
Move == /\ phase = "search" /\ it < MaxIt /\ it' = it + 1
        /\ \E j \in 1..(IF Slip = "last" THEN n ELSE n - 1), d \in {-2, 2} : p' = [p EXCEPT ![j] = @ + d]
        /\ old' = p /\ hurt' = (hurt \/ FALSE) /\ UNCHANGED <<n, a, i, phase>> /\ Obs /\ ev' = [k |-> "none"]
GiveUp == /\ phase = "search" /\ Obs /\ ev' = [k |-> "fail"] /\ phase' = "end" /\ UNCHANGED <<n, p, old, a, it, i, hurt>>
Converge == /\ phase = "search" /\ phase' = "legs" /\ i' = 1 /\ Obs /\ ev' = [k |-> "none"] /\ UNCHANGED <<n, p, old, a, it, hurt>>
Aim(j) == IF Slip = "stale" THEN old[j] ELSE p[j]
Leg == /\ phase = "legs" /\ i <= n /\ Obs
       /\ \E e \in {-1, 0, 1} :
            LET from == IF Slip = "jump" /\ i > 1 THEN p[i - 1] ELSE a[i - 1]
                to == Aim(i) + e
                es == 2000 * Abs(from - a[i - 1]) IN
            /\ a' = [a EXCEPT ![i] = to]
            /\ ev' = [k |-> "seg", i |-> i, t0 |-> 0, t1 |-> 0, start |-> es, dv |-> 0, err |-> 1000 * Abs(to - p[i]), ach |-> 0, rest |-> TRUE, end |-> 1000 * Abs(to - Target)]
            /\ hurt' = (hurt \/ from # a[i - 1] \/ Abs(to - p[i]) > 1 \/ (i = n /\ Abs(to - Target) > 1))
       /\ IF i = n - 1 /\ Slip = "short" THEN phase' = "fly" /\ i' = 1 ELSE IF i = n THEN phase' = "fly" /\ i' = 1 ELSE phase' = phase /\ i' = i + 1
       /\ UNCHANGED <<n, p, old, it>>
Count == IF Slip = "short" THEN n - 1 ELSE n
Fly == /\ phase = "fly" /\ Obs
       /\ IF i > Count THEN ev' = [k |-> "done"] /\ phase' = "end" /\ i' = i /\ hurt' = (hurt \/ Count # n)
          ELSE ev' = [k |-> "traj", i |-> i, t0 |-> 0, t1 |-> 0, first |-> 0, last |-> 0] /\ i' = i + 1 /\ phase' = phase /\ hurt' = (hurt \/ Count # n)
       /\ UNCHANGED <<n, p, old, a, it>>
Next == Refuse \/ Guess \/ Move \/ GiveUp \/ Converge \/ Leg \/ Fly
VARIABLE seen
SInit == Init /\ seen = FALSE
F == IF ev.k = "none" THEN {} ELSE PFails(obs, ev)
SNext == Next /\ seen' = (seen \/ F # {})
Spec == SInit /\ [][SNext]_<<vars, seen>>
Conforms == Slip = "none" => F = {}
Seen == (phase = "end" /\ ev.k = "done") => ((seen \/ F # {}) = hurt)
Emit == (phase = "end") => PrintT("SCEN " \o ToJson([n |-> n, ok |-> ev.k # "refused"]))
====
