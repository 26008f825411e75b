---- MODULE P11M ----
(* Design model: every list of up to K noises and every sequence of up to N gaps; the filter scans the noises from the last one.  *)
EXTENDS P11, Json
CONSTANTS N, K, Starts, Diss, Gaps
VARIABLES noise, t, hist
vars == <<noise, t, hist>>
Init == noise \in UNION {[1..k -> [start : Starts, dis : Diss]] : k \in 0..K} /\ t = 0 /\ hist = <<>>
\* start 0 stands for no start time
RECURSIVE Scan(_, _, _)
Scan(i, tt, g) == IF i = 0 THEN 0 ELSE IF tt < noise[i].start \/ g > noise[i].dis THEN Scan(i - 1, tt, g) ELSE i
Step(g) == Len(hist) < N /\ t' = t + g /\ hist' = Append(hist, [g |-> g, c |-> Scan(Len(noise), t + g, g)]) /\ UNCHANGED noise
Next == \E g \in Gaps : Step(g)
Spec == Init /\ [][Next]_vars
RECURSIVE At(_)
At(n) == IF n = 0 THEN 0 ELSE At(n - 1) + hist[n].g
NN == [i \in 1..Len(noise) |-> [has |-> noise[i].start > 0, start |-> <<noise[i].start, 0>>, dis |-> <<noise[i].dis, 0>>]]
E(n, c) == [k |-> "step", t |-> <<At(n), 0>>, none |-> IF c = 0 THEN 0 ELSE 1000, cand |-> [i \in 1..Len(noise) |-> IF i = c THEN 0 ELSE 1000], psd |-> 0, sym |-> 0]
S(n) == [noise |-> NN, t |-> <<At(n - 1), 0>>]
Conforms == \A n \in 1..Len(hist) : \A c \in 0..Len(noise) : (PFails(S(n), E(n, c)) = {}) <=> (c = hist[n].c)
NoneTooEarly == \A n \in 1..Len(hist) : hist[n].c > 0 => At(n) >= noise[hist[n].c].start /\ hist[n].g <= noise[hist[n].c].dis
LastWins == \A n \in 1..Len(hist) : \A i \in 1..Len(noise) : (At(n) >= noise[i].start /\ hist[n].g <= noise[i].dis) => i <= hist[n].c
Emit == Len(hist) = N => PrintT("SCEN " \o ToJson([noise |-> noise, gaps |-> [n \in 1..N |-> hist[n].g]]))
====
