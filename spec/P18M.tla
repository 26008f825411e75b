---- MODULE P18M ----
(* Design model: the random variable is a nine-slot covariance built one dispersion at a time; a draw moves the slots whose variance   *)
(* or mean is not nil.  In units: variances are 0 or 1, means 0 or 1; the sample is idealised (its statistics are exact).            *)
EXTENDS P18, Json, SequencesExt
CONSTANTS Slots, Shift
VARIABLES want, left, var, mean, pc
vars == <<want, left, var, mean, pc>>
\* the slot the dispersion of parameter p is stored in; Shift models an off-by-one
Order == <<"x", "y", "z", "vx", "vy", "vz", "cr", "cd", "pm">>
Pos(p) == CHOOSE n \in 1..9 : Order[n] = p
Slot(p) == IF Shift = 0 \/ Pos(p) < 7 THEN p ELSE IF Pos(p) + Shift > 9 THEN "none" ELSE Order[Pos(p) + Shift]
Init == want \in SUBSET Slots /\ left = want /\ var = [s \in Set(Order) |-> 0] /\ mean = [s \in Set(Order) |-> 0] /\ pc = "build"
Build == /\ pc = "build" /\ (\E p \in left : (left' = left \ {p} /\ var' = (IF Slot(p) = "none" THEN var ELSE [var EXCEPT ![Slot(p)] = 1]) /\ mean' = (IF Slot(p) = "none" THEN mean ELSE [mean EXCEPT ![Slot(p)] = 1])))
         /\ UNCHANGED <<want, pc>>
Draw == pc = "build" /\ left = {} /\ pc' = "drawn" /\ UNCHANGED <<want, left, var, mean>>
Next == Build \/ Draw
Spec == Init /\ [][Next]_vars
W == SetToSeq(want)
S0 == PBegin([kind |-> "set", bad |-> FALSE, names |-> W, sd |-> [n \in 1..Len(W) |-> TRUE], free |-> W, slots |-> Order])
Obs == [k |-> "stat", moved |-> SetToSeq({s \in Set(Order) : var[s] = 1}), rest |-> TRUE, z |-> [n \in 1..Len(W) |-> IF mean[W[n]] = 1 THEN 0 ELSE 100000],
        ratio |-> [n \in 1..Len(W) |-> 1000 * var[W[n]]], corr |-> <<>>, reported |-> 0, named |-> TRUE, distinct |-> TRUE]
Conforms == pc = "drawn" /\ Shift = 0 => PFails(S0, Obs) = {}
Seen == pc = "drawn" /\ Shift # 0 /\ want \cap {"cr", "cd", "pm"} # {} => PFails(S0, Obs) # {}
Emit == pc = "drawn" /\ Shift = 0 => PrintT("SCEN " \o ToJson([slots |-> SetToSeq(want)]))
====
