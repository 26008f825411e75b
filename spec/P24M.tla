---- MODULE P24M ----
(* Design model: the acceleration is accumulated model by model, in any order, from integer stand-ins for their laws; forces are       *)
(* divided by the mass at the end of each contribution.  Kinds of slip: "over" (a contribution replaces the sum), "mass" (a force is   *)
(* not divided by the mass).  Conforms: without a slip every order gives the same sum.   *)
EXTENDS P24, Json
CONSTANTS Models, Frames, Ats, Lits, Slip
VARIABLES conf, todo, acc, pc
vars == <<conf, todo, acc, pc>>
Confs == [models : SUBSET Models, frame : Frames, at : Ats, lit : Lits, massless : BOOLEAN]
Useful(c) == /\ (c.massless => c.frame = "eme" /\ c.at = "earth" /\ c.lit = "any")
             /\ (c.at = "moon" => c.frame # "ecl" /\ "drag" \notin c.models)
             /\ (c.lit # "any" => "srp" \in c.models)
Mass == 4
Law(m, lit) == CASE m = "pm" -> 8 [] m = "gf" -> 16 [] m = "st" -> 32 [] m = "srp" -> (IF lit = "shadow" THEN 0 ELSE 64 * Mass) [] m = "drag" -> 128 * Mass
Eff(m, lit) == IF m \in Forces /\ Slip # "mass" THEN Law(m, lit) \div Mass ELSE Law(m, lit)
Want(c) == 1024 + (IF "pm" \in c.models THEN 8 ELSE 0) + (IF "gf" \in c.models THEN 16 ELSE 0) + (IF "st" \in c.models THEN 32 ELSE 0)
           + (IF "srp" \in c.models /\ c.lit # "shadow" THEN 64 ELSE 0) + (IF "drag" \in c.models THEN 128 ELSE 0)
Init == /\ conf \in {c \in Confs : Useful(c)} /\ todo = conf.models /\ acc = 1024 /\ pc = "add"
Refuse == pc = "add" /\ conf.massless /\ conf.models \cap Forces # {} /\ pc' = "refused" /\ UNCHANGED <<conf, todo, acc>>
Add == /\ pc = "add" /\ ~(conf.massless /\ conf.models \cap Forces # {}) /\ todo # {}
       /\ \E m \in todo : /\ todo' = todo \ {m}
                          /\ acc' = (IF Slip = "over" THEN 1024 + Eff(m, conf.lit) ELSE acc + Eff(m, conf.lit))
       /\ UNCHANGED <<conf, pc>>
Done == pc = "add" /\ todo = {} /\ ~(conf.massless /\ conf.models \cap Forces # {}) /\ pc' = "done" /\ UNCHANGED <<conf, todo, acc>>
Next == Refuse \/ Add \/ Done
Spec == Init /\ [][Next]_vars
S0 == [models |-> conf.models, massless |-> conf.massless]
Ev == IF conf.massless THEN [k |-> "massless", ok |-> pc = "done", stm |-> pc = "done"]
      ELSE [k |-> "sum", err |-> IF acc = Want(conf) THEN 0 ELSE 1000000, rest |-> 0]
Over == pc \in {"done", "refused"}
Conforms == Over /\ Slip = "no" => PFails(S0, Ev) = {}
Hit == CASE Slip = "mass" -> "drag" \in conf.models \/ ("srp" \in conf.models /\ conf.lit # "shadow")
         [] Slip = "over" -> Cardinality(conf.models) > 1 /\ ~(conf.models \subseteq {"srp"})
         [] OTHER -> FALSE
Seen == Over /\ Slip # "no" /\ ~conf.massless /\ conf.lit # "shadow" => (Hit <=> PFails(S0, Ev) # {})
Emit == Over /\ Slip = "no" => PrintT("SCEN " \o ToJson(conf))
====
