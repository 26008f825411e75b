---- MODULE P28M ----
(* Design model of the correction loop: from the B-plane of the current orbit, stop if within tolerance, give up if the error did not    *)
(* shrink or after Max attempts, otherwise move the orbit and add the move to the total.  Distances from the target are abstracted to    *)
(* 0 (within tolerance) .. 4; a correction may also leave the orbit bound.  Slips: "lost" forgets one correction in the total, "keep"    *)
(* returns the B-plane of the orbit before the last correction, "loose" stops when only B.T is within its tolerance, "bound" skips the   *)
(* hyperbola test.                                                                                                                     *)
EXTENDS P28, Json
CONSTANTS Shapes, Legs, Turns, Targets, Max, Slip
VARIABLES sc, et, er, hyp, prev, moved, total, last, n, out
vars == <<sc, et, er, hyp, prev, moved, total, last, n, out>>
Start(t) == CASE t = "same" -> {<<0, 0>>} [] t = "near" -> {<<1, 0>>, <<1, 1>>, <<0, 1>>} [] OTHER -> {<<2, 2>>, <<4, 2>>, <<0, 4>>}
Init == /\ sc \in [shape : Shapes, leg : Legs, turn : Turns, tgt : Targets]
        /\ \E e \in Start(sc.tgt) : et = e[1] /\ er = e[2]
        /\ hyp = (sc.shape # "bound") /\ prev = 99 /\ moved = 0 /\ total = 0 /\ last = <<0, 0>> /\ n = 0 /\ out = "run"
Within == et = 0 /\ (er = 0 \/ Slip = "loose")
Stop(o) == out' = o /\ UNCHANGED <<sc, et, er, hyp, prev, moved, total, last, n>>
Loop == /\ out = "run"
        /\ IF n > Max THEN Stop("err")
           ELSE IF ~hyp /\ Slip # "bound" THEN Stop("err")
           ELSE IF Within THEN Stop("ok")
           ELSE IF et + er >= prev THEN Stop("err")
           ELSE /\ prev' = et + er /\ last' = <<et, er>> /\ moved' = moved + 1 /\ total' = total + (IF Slip = "lost" /\ n = 1 THEN 0 ELSE 1)
                /\ \E a, b \in 0..4 : /\ (sc.tgt = "near" => a + b < et + er) /\ et' = a /\ er' = b
                /\ hyp' \in (IF sc.tgt = "near" \/ ~hyp THEN {hyp} ELSE {TRUE, FALSE})
                /\ n' = n + 1 /\ out' = out /\ UNCHANGED sc
Next == Loop
Spec == Init /\ [][Next]_vars
Done == out # "run"
S0 == PBegin([hyper |-> sc.shape # "bound", must |-> sc.shape # "bound" /\ sc.tgt \in {"same", "near"}])
Dev == IF moved = total THEN 0 ELSE 4000
Rep == IF Slip = "keep" /\ n > 0 /\ last # <<et, er>> THEN 4000 ELSE 0
Ev == [k |-> "tgt", ok |-> out = "ok", bt |-> et * 2000 + Dev, br |-> er * 2000 + Dev, rep |-> Rep]
Conforms == Done /\ Slip = "none" => PFails(S0, Ev) = {}
Seen == Done /\ Slip # "none" /\ out = "ok" =>
  (PFails(S0, Ev) # {}) = CASE Slip = "lost" -> moved # total [] Slip = "keep" -> Rep > 0 [] Slip = "loose" -> er # 0 [] OTHER -> sc.shape = "bound"
Ends == n <= Max + 1
Emit2 == n = 0 /\ out = "run" /\ Slip = "none" => PrintT("SCEN " \o ToJson(sc))
====
