---- MODULE P01M ----
(* Design model of the stepping loop: a call fixes a direction and a stop time; the integrator accepts steps of any  *)
(* length up to the pending one (adaptive rejection) and proposes any next one; the last step is cut to the remainder; *)
(* a fault or an event may end the call after any step.  Every call of every history must satisfy the contract P01.  *)
EXTENDS P01, Json
CONSTANTS MaxD, MaxStep, MaxCalls
VARIABLES now, step, mode, stop, dir, pub, obs, ev, hist, nsteps
vars == <<now, step, mode, stop, dir, pub, obs, ev, hist, nsteps>>
NoEv == [none |-> TRUE]
T(n) == <<n, 0>>
B(n) == ToString(n)             \* in the model the state is a function of the epoch
Init == /\ now = 0 /\ step \in 1..MaxStep /\ mode = "idle" /\ stop = 0 /\ dir = "z" /\ pub = <<>>
        /\ obs = [now |-> T(0), bits |-> B(0)] /\ ev = NoEv /\ hist = <<>> /\ nsteps = 0
Ret(op, ok, blown) ==
  /\ ev' = [op |-> op, dir |-> dir, req |-> T(stop), blown |-> blown, ok |-> ok, ret |-> T(now'), retbits |-> B(now'),
            inst |-> T(now'), instbits |-> B(now'), pub |-> [j \in 1..Len(pub') |-> T(pub'[j])],
            lastbits |-> IF pub' = <<>> THEN "" ELSE B(pub'[Len(pub')]), traj |-> <<>>, trajends |-> <<>>]
  /\ mode' = "ret" /\ UNCHANGED <<obs, stop, dir, hist>>
Call == /\ mode = "idle" /\ Len(hist) < MaxCalls
        /\ \E d \in -MaxD..MaxD : \E o \in {"ok", "fault", "event"} :
             /\ d = 0 => o = "ok"
             /\ stop' = now + d /\ dir' = IF d < 0 THEN "b" ELSE IF d = 0 THEN "z" ELSE "f"
             /\ hist' = Append(hist, [d |-> d, o |-> o])
        /\ mode' = "run" /\ pub' = <<>> /\ nsteps' = 0 /\ UNCHANGED <<now, step, obs, ev>>
Out == hist[Len(hist)].o
Sgn == IF dir = "b" THEN -1 ELSE 1
Left == IF dir = "b" THEN now - stop ELSE stop - now
Zero == mode = "run" /\ Left = 0 /\ UNCHANGED <<now, step, pub, nsteps>> /\ Ret("chan", TRUE, FALSE)
Full == /\ mode = "run" /\ Left > 0 /\ step <= Left /\ nsteps < 2*MaxD
        /\ \E a \in 1..step : now' = now + Sgn * a
        /\ \E s \in 1..MaxStep : step' = s
        /\ nsteps' = nsteps + 1
        /\ pub' = Append(pub, now')
        /\ UNCHANGED <<mode, stop, dir, obs, ev, hist>>
Final == /\ mode = "run" /\ Left > 0 /\ step > Left
         /\ now' = stop /\ pub' = Append(pub, now') /\ UNCHANGED <<step, nsteps>> /\ Ret("chan", TRUE, FALSE)
Fault == /\ mode = "run" /\ Left > 0 /\ Out = "fault" /\ UNCHANGED <<now, step, pub, nsteps>> /\ Ret("chan", FALSE, TRUE)
Event == /\ mode = "run" /\ Left > 0 /\ Out = "event" /\ step <= Left
         /\ \E a \in 1..step : now' = now + Sgn * a
         /\ UNCHANGED <<step, pub, nsteps>> /\ Ret("event", TRUE, FALSE)
Back == /\ mode = "ret" /\ mode' = "idle" /\ obs' = PApply(obs, ev) /\ UNCHANGED <<now, step, stop, dir, pub, ev, hist, nsteps>>
Next == Call \/ Zero \/ Full \/ Final \/ Fault \/ Event \/ Back
Spec == Init /\ [][Next]_vars
Conforms == mode = "ret" => PFails(obs, ev) = {}
StepPositive == step >= 1
Emit == (mode = "idle" /\ Len(hist) = MaxCalls) => PrintT("SCEN " \o ToJson([h |-> hist]))
====
