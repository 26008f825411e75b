---- MODULE P21M ----
(* Design model: a device keeps an ordered list of types next to a noise per type; it looks at the vehicle at the start and at the end  *)
(* of the integration.  Fault "end" looks only at the end; "order" reads the values by place in the list instead of by type.           *)
EXTENDS P21, Json
CONSTANTS Devs, MaxOps, Fault
VARIABLES dev, types, int, ops, st, pc, place, res
vars == <<dev, types, int, ops, st, pc, place, res>>
Kinds == [gs |-> <<"Range", "Doppler", "Azimuth", "Elevation">>, link |-> <<"Range", "Doppler">>, pos |-> <<"X", "Y", "Z">>, asset |-> <<"Range", "Doppler">>]
Sup(d) == SeqSet(Kinds[d])
(* the vehicle is in sight during ticks 3..6 of a trajectory that covers 0..9; integrations last two ticks *)
Span == 0..9
VisAt(t) == IF t \in 3..6 THEN 1 ELSE 0
Places == [in |-> 5, edgein |-> 4, edgeout |-> 8, out |-> 9, start |-> 1, past |-> 11]
PlaceNames == {"in", "edgein", "edgeout", "out", "start", "past"}
Init == /\ dev \in Devs /\ types = <<>> /\ int \in (IF dev = "pos" THEN {FALSE} ELSE BOOLEAN)
        /\ ops = <<>> /\ st = PBegin([dev |-> dev]) /\ pc = "cfg" /\ place = "in" /\ res = [k |-> "nil"]
SwapRemove(q, t) == LET n == CHOOSE n \in 1..Len(q) : q[n] = t
                    IN IF n = Len(q) THEN SubSeq(q, 1, Len(q) - 1) ELSE [m \in 1..(Len(q) - 1) |-> IF m = n THEN q[Len(q)] ELSE q[m]]
Op == /\ pc = "cfg" /\ Len(ops) < MaxOps
      /\ \E o \in (IF dev = "gs" THEN {"add", "del"} ELSE {"add"}), t \in Sup(dev) :
         /\ ops' = Append(ops, [op |-> o, t |-> t])
         /\ types' = (IF o = "add" THEN (IF t \in SeqSet(types) THEN types ELSE Append(types, t)) ELSE IF t \in SeqSet(types) THEN SwapRemove(types, t) ELSE types)
         /\ st' = PApply(st, [k |-> o, t |-> t])
      /\ UNCHANGED <<dev, int, pc, place, res>>
Value(n) == IF Fault = "order" THEN Kinds[dev][n] ELSE types[n]
Measure == /\ pc = "cfg" /\ Len(ops) >= 1 /\ pc' = "done"
           /\ \E p \in PlaceNames :
              LET t == Places[p]
                  in1 == t \in Span in0 == (t - 2) \in Span
                  v1 == VisAt(t) v0 == VisAt(t - 2)
                  both == IF Fault = "end" THEN v1 = 1 ELSE v0 = 1 /\ v1 = 1
                  got == IF int THEN IF in0 /\ in1 THEN IF both THEN "msr" ELSE "none" ELSE "none"
                         ELSE IF ~in1 THEN "err" ELSE IF (IF dev = "pos" THEN TRUE ELSE v1 = 1) THEN "msr" ELSE "none"
              IN /\ place' = p
                 /\ res' = [k |-> "msr", inst |-> FALSE, in0 |-> in0, in1 |-> in1, vis0 |-> IF dev = "pos" THEN 1 ELSE v0, vis1 |-> IF dev = "pos" THEN 1 ELSE v1,
                            got |-> got, types |-> types, stamp |-> TRUE,
                            val |-> IF \A n \in 1..Len(types) : Value(n) = types[n] THEN 0 ELSE 1000]
           /\ st' = PApply(st, [k |-> "int", on |-> int]) /\ UNCHANGED <<dev, types, int, ops>>
Next == Op \/ Measure
Spec == Init /\ [][Next]_vars
Fine == PFails(st, [k |-> "cfg", types |-> types]) = {} /\ (pc = "done" => PFails(st, res) = {})
Conforms == Fault = "none" => Fine
Wrong == pc = "done" /\ ((Fault = "end" /\ int /\ place = "edgein") \/ (Fault = "order" /\ res.got = "msr" /\ \E n \in 1..Len(types) : types[n] # Kinds[dev][n]))
Seen == Wrong => ~Fine
Emit == pc = "done" /\ Fault = "none" => PrintT("SCEN " \o ToJson([dev |-> dev, ops |-> ops, int |-> int, place |-> CASE place = "edgein" -> "edge-in" [] place = "edgeout" -> "edge-out" [] OTHER -> place]))
====
