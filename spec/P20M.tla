---- MODULE P20M ----
(* Design model: the batch walks the measurements in time order, propagating up to each and using it when it can.  Skip "late" drops   *)
(* those that need no propagation (several at one epoch, one at the initial epoch), which is not the specified behaviour.             *)
EXTENDS P20, Json
CONSTANTS Gaps, Kinds, MaxLen, Skip
VARIABLES arc, epoch, at, used, i, pc
vars == <<arc, epoch, at, used, i, pc>>
Kind(kd) == CASE kd = "one" -> [n |-> 1, rej |-> FALSE, seen |-> TRUE] [] kd = "two" -> [n |-> 2, rej |-> FALSE, seen |-> TRUE]
              [] kd = "flag" -> [n |-> 1, rej |-> TRUE, seen |-> TRUE] [] kd = "unknown" -> [n |-> 1, rej |-> FALSE, seen |-> FALSE]
              [] kd = "blind" -> [n |-> 2, rej |-> FALSE, seen |-> FALSE]
Init == arc = <<>> /\ epoch = 0 /\ at = 0 /\ used = 0 /\ i = 0 /\ pc = "build"
Add == pc = "build" /\ Len(arc) < MaxLen /\ (\E g \in Gaps, kd \in Kinds : arc' = Append(arc, [g |-> g, kd |-> kd])) /\ UNCHANGED <<epoch, at, used, i, pc>>
Go == pc = "build" /\ Len(arc) >= 1 /\ pc' = "run" /\ UNCHANGED <<arc, epoch, at, used, i>>
Step == /\ pc = "run" /\ i < Len(arc)
        /\ LET m == Kind(arc[i + 1].kd) t == at + arc[i + 1].g ok == Usable(m) /\ (Skip = "none" \/ t > epoch) IN
           at' = t /\ epoch' = (IF m.rej THEN epoch ELSE t) /\ used' = used + (IF ok THEN m.n ELSE 0)
        /\ i' = i + 1 /\ UNCHANGED <<arc, pc>>
Finish == pc = "run" /\ i = Len(arc) /\ pc' = "done" /\ UNCHANGED <<arc, epoch, at, used, i>>
Next == Add \/ Go \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
S0 == PBegin([ms |-> [n \in 1..Len(arc) |-> Kind(arc[n].kd)], bad |-> FALSE, well |-> TRUE, easy |-> TRUE, maxit |-> 1])
Conforms == pc = "done" /\ Skip = "none" => PFails(S0, [k |-> "ref", n |-> used]) = {}
Drops == \E n \in 1..Len(arc) : Usable(Kind(arc[n].kd)) /\ arc[n].g = 0 /\ (\A m \in 1..(n - 1) : ~Kind(arc[m].kd).rej)
Seen == pc = "done" /\ Skip = "late" /\ Drops => PFails(S0, [k |-> "ref", n |-> used]) # {}
Emit == pc = "done" /\ Skip = "none" => PrintT("SCEN " \o ToJson([arc |-> arc]))
====
