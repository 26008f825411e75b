---- MODULE P25M ----
(* Design model: a solver reads the geometry, picks a direction, sets the sign of lambda and the tangents from it, and solves the time  *)
(* of flight for the requested revolutions.  Flip: the tangents are taken from a normal turned to +z while lambda is not, which sends   *)
(* the vehicle the other way round than the time of flight was solved for.                                                             *)
EXTENDS P25, Json
CONSTANTS Kinds, Cols, Ups, Tofs, Flip
VARIABLES prob, lam, tan, out, pc
vars == <<prob, lam, tan, out, pc>>
Init == /\ prob \in [kind : Kinds, col : Cols, up : Ups, tof : Tofs] /\ lam = "?" /\ tan = "?" /\ out = "?" /\ pc = "check"
Bad == prob.col # "no" \/ prob.tof \in {"neg", "zero"}
Check == pc = "check" /\ (IF Bad THEN out' = "err" /\ pc' = "done" ELSE out' = out /\ pc' = "dir") /\ UNCHANGED <<prob, lam, tan>>
Other(w) == IF w = "short" THEN "long" ELSE "short"
Choice == CASE prob.kind = "S" -> "short" [] prob.kind = "L" -> "long" [] OTHER -> IF prob.up = 1 THEN "short" ELSE "long"
Dir == /\ pc = "dir" /\ lam' = Choice /\ tan' = (IF Flip /\ prob.up = 0 THEN Other(Choice) ELSE Choice) /\ pc' = "solve" /\ UNCHANGED <<prob, out>>
Feasible == CASE prob.kind = "N1" -> prob.tof \in {"long", "longer"} [] prob.kind = "N2" -> prob.tof = "longer" [] OTHER -> TRUE
Solve == /\ pc = "solve" /\ out' = (IF Feasible THEN "sol" ELSE "err") /\ pc' = "done" /\ UNCHANGED <<prob, lam, tan>>
Next == Check \/ Dir \/ Solve
Spec == Init /\ [][Next]_vars
S0 == PBegin([kind |-> prob.kind, up |-> prob.up, bad |-> Bad, must |-> ~Bad /\ Feasible])
Ev == IF out = "err" THEN [k |-> "err"] ELSE
      [k |-> "sol", fin |-> TRUE, arr |-> IF lam = tan THEN 0 ELSE 1000000, vel |-> 0, way |-> tan, revs |-> Revs(S0), truth |-> 0, orbits |-> TRUE]
Conforms == pc = "done" /\ ~Flip => PFails(S0, Ev) = {}
Seen == pc = "done" /\ Flip /\ out = "sol" => (prob.up = 0) = (PFails(S0, Ev) # {})
Emit == pc = "done" /\ ~Flip => PrintT("SCEN " \o ToJson(prob))
====
