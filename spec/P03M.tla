---- MODULE P03M ----
(* Histories of propagations as displacements of a flow: all splittings, reversals and returns to the start. *)
EXTENDS P03, Json
CONSTANTS MaxD, MaxCalls
VARIABLES net, hist, obs, ev
vars == <<net, hist, obs, ev>>
Init == net = 0 /\ hist = <<>> /\ obs = PBegin([method |-> "RungeKutta89"]) /\ ev = [k |-> "poly", deg |-> 0, err |-> 0]
Next == /\ Len(hist) < MaxCalls
        /\ \E d \in -MaxD..MaxD :
             /\ net' = net + d /\ hist' = Append(hist, d)
             /\ ev' = [k |-> "kep", d |-> d, net |-> net + d, clk |-> 0, dr |-> 0, dv |-> 0, tdr |-> 0, frames |-> TRUE]
        /\ obs' = PApply(obs, ev)
Spec == Init /\ [][Next]_vars
Conforms == PFails(obs, ev) = {}
Group == net = LET S[j \in 0..Len(hist)] == IF j = 0 THEN 0 ELSE S[j-1] + hist[j] IN S[Len(hist)]
Emit == Len(hist) = MaxCalls => PrintT("SCEN " \o ToJson([h |-> hist]))
====
