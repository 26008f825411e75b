---- MODULE P04M ----
(* Design model of the search: a signal whose sign flips at given ticks, steps of 1..MaxStep ticks, crossings counted at step   *)
(* ends, refinement inside the bracketing step, the last step cut at the end of the window.  Crossings are at least MaxStep+1   *)
(* ticks apart.  Explored for every signal, window and choice of steps, in either direction (time is mirrored for backward).    *)
EXTENDS P04, Json
CONSTANTS Horizon, MaxStep, MaxN
VARIABLES flips, end, n, now, count, phase, back, found
vars == <<flips, end, n, now, count, phase, back, found>>
Sign(t) == Cardinality({f \in flips : f <= t}) % 2
Separated == \A a \in flips : \A b \in flips : a # b => (a - b > MaxStep \/ b - a > MaxStep)
Init == /\ flips \in SUBSET (1..Horizon) /\ Separated /\ end \in 1..Horizon /\ n \in 1..MaxN
        /\ now = 0 /\ count = 0 /\ phase = "run" /\ back \in {0, 1} /\ found = 0
InWindow == {f \in flips : f <= end}
Nth(k) == CHOOSE f \in flips : Cardinality({g \in flips : g <= f}) = k
Step == /\ phase = "run" /\ now < end
        /\ \E s \in 1..MaxStep :
             LET t == IF now + s > end THEN end ELSE now + s IN
             LET c == IF Sign(t) # Sign(now) THEN count + 1 ELSE count IN
             /\ now' = t /\ count' = c
             /\ IF c > count /\ c >= n THEN phase' = "found" /\ found' = (CHOOSE f \in flips : f > now /\ f <= t) ELSE UNCHANGED <<phase, found>>
        /\ UNCHANGED <<flips, end, n, back>>
GiveUp == phase = "run" /\ now = end /\ phase' = "notfound" /\ UNCHANGED <<flips, end, n, now, count, back, found>>
Next == Step \/ GiveUp
Spec == Init /\ [][Next]_vars
Refs == Cardinality(InWindow)
Ev == IF phase = "found" THEN [k |-> "found", refs |-> Refs, idx |-> Cardinality({g \in flips : g <= found}), dt |-> 0, prec |-> 0, dr |-> 0, dv |-> 0, sorted |-> TRUE, covers |-> TRUE, tdr |-> 0]
      ELSE IF phase = "notfound" THEN [k |-> "notfound", refs |-> Refs] ELSE [k |-> "skip"]
Conforms == PFails([n |-> n], Ev) = {}
Last == IF InWindow = {} THEN 0 ELSE CHOOSE f \in InWindow : \A g \in InWindow : g <= f
TailCls == IF end - Last < MaxStep THEN 0 ELSE IF end - Last = MaxStep THEN 2 ELSE 1
Emit == (phase \in {"found", "notfound"}) => PrintT("SCEN " \o ToJson([n |-> n, k |-> Refs, tail |-> TailCls, back |-> back]))
====
