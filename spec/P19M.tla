---- MODULE P19M ----
(* Design model: differential correction of one variable, in integers: the objective is met when the total correction is within one    *)
(* of the target; each iteration takes a limited step and keeps the total within its bounds.  Mode "step" bounds each step instead,   *)
(* which the judgement must not accept.                                                                                              *)
EXTENDS P19, Json
CONSTANTS Targets, Bounds, Guesses, Steps, MaxIt, Mode
VARIABLES tgt, lo, hi, guess, stp, x, it, pc
vars == <<tgt, lo, hi, guess, stp, x, it, pc>>
TDef == -4..4
BDef == 0..4
GDef == -1..1
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Abs(v) == IF v < 0 THEN -v ELSE v
Init == tgt \in Targets /\ lo \in {-b : b \in Bounds} /\ hi \in Bounds /\ guess \in Guesses /\ guess >= lo /\ guess <= hi /\ stp \in Steps
        /\ x = guess /\ it = 0 /\ pc = "run"
Met == Abs(2 * (tgt - x)) <= 1
Delta == Clamp(tgt - x, -stp, stp)
NextX == IF Mode = "total" THEN Clamp(x + Delta, lo, hi) ELSE x + Clamp(Delta, lo, hi)
Iter == /\ pc = "run"
        /\ IF Met THEN pc' = "solved" /\ UNCHANGED <<x, it>>
           ELSE IF it >= MaxIt \/ NextX = x THEN pc' = "failed" /\ UNCHANGED <<x, it>>
           ELSE x' = NextX /\ it' = it + 1 /\ pc' = "run"
        /\ UNCHANGED <<tgt, lo, hi, guess, stp>>
Next == Iter
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Must == IF tgt >= lo /\ tgt <= hi /\ MaxIt * stp >= Abs(tgt - guess) THEN "solve" ELSE "may"
S0 == PBegin([must |-> Must, maxit |-> MaxIt])
Obs == IF pc = "failed" THEN [k |-> "err"]
       ELSE [k |-> "sol", obj |-> <<2000 * Abs(tgt - x)>>, err |-> <<0>>, corr |-> 0, ach |-> 0, bounds |-> (x >= lo /\ x <= hi), rest |-> TRUE, same |-> TRUE, it |-> it]
Done == pc # "run"
Conforms == Done /\ Mode = "total" => PFails(S0, Obs) = {}
InBounds == Mode = "total" => x >= lo /\ x <= hi
Seen == Done /\ Mode = "step" /\ pc = "solved" /\ (x > hi \/ x < lo) => PFails(S0, Obs) # {}
Terminates == <>Done
Emit == pc = "run" /\ it = 0 /\ x = guess /\ Mode = "total" => PrintT("SCEN " \o ToJson([tgt |-> tgt, lo |-> lo, hi |-> hi, guess |-> guess, step |-> stp]))
====
