---- MODULE P23M ----
(* Design model: a closed loop of a law with up to two objectives whose status changes while it thrusts (a thrusting law may bring an  *)
(* unmet objective to its target; a coasting one may drift away), flying in and out of shadow.  Slips: "eclipse" (the limit is         *)
(* ignored), "inhibit" (an inhibited law is enabled again), "idle" (thrust although all is met).                                       *)
EXTENDS P23, Json
CONSTANTS Laws, Stats, Steps, Slip
VARIABLES conf, st, dark, mode, hist
vars == <<conf, st, dark, mode, hist>>
Confs == [law : Laws, st1 : Stats \ {"none"}, st2 : Stats, limit : BOOLEAN, lit : {"light", "shadow"}, mode : {"coast", "thrust", "inhibit"}]
Init == /\ conf \in {c \in Confs : ~c.limit => c.lit = "light"} /\ st = <<conf.st1, conf.st2>> /\ dark = (conf.limit /\ conf.lit = "shadow")
        /\ mode = conf.mode /\ hist = <<>>
Unmet(x) == \E i \in 1..2 : x[i] \in {"low", "high"}
Decide == IF Slip = "inhibit" /\ mode = "inhibit" THEN After("coast", Unmet(st), dark)
          ELSE IF Slip = "eclipse" THEN After(mode, Unmet(st), FALSE)
          ELSE IF Slip = "idle" /\ mode = "thrust" THEN "thrust" ELSE After(mode, Unmet(st), dark)
Ev(after) == [k |-> "next", mode |-> mode, unmet |-> Unmet(st), dark |-> dark, after |-> after]
Drift(a, m) == CASE a = "none" -> {"none"} [] a = "met" -> {"met", "low"} [] OTHER -> (IF m = "thrust" THEN {a, "met"} ELSE {a})
Step == /\ Len(hist) < Steps
        /\ mode' = Decide /\ hist' = Append(hist, Ev(Decide))
        /\ \E a \in Drift(st[1], Decide) : \E b \in Drift(st[2], Decide) : st' = <<a, b>>
        /\ dark' \in (IF conf.limit THEN BOOLEAN ELSE {FALSE}) /\ UNCHANGED conf
Next == Step
Spec == Init /\ [][Next]_vars
Bad == \E i \in 1..Len(hist) : PFails(PBegin(conf), hist[i]) # {}
Conforms == Slip = "no" => ~Bad
NeverInDark == Slip = "no" => \A i \in 1..Len(hist) : hist[i].after = "thrust" => hist[i].unmet /\ ~hist[i].dark
InhibitedStays == Slip = "no" /\ conf.mode = "inhibit" => mode = "inhibit"
Hit == \E i \in 1..Len(hist) : CASE Slip = "eclipse" -> hist[i].mode # "inhibit" /\ hist[i].unmet /\ hist[i].dark
                                 [] Slip = "inhibit" -> hist[i].mode = "inhibit"
                                 [] Slip = "idle" -> hist[i].mode = "thrust" /\ (~hist[i].unmet \/ hist[i].dark)
                                 [] OTHER -> FALSE
Seen == Slip # "no" => (Hit <=> Bad)
Emit == Slip = "no" /\ hist = <<>> => PrintT("SCEN " \o ToJson(conf))
====
