---- MODULE P02M ----
(* Design model of the step controller.  The estimated error of an attempt is chosen by the environment among levels; a     *)
(* success grows the step as the level says, a failure shrinks it; both are clamped.  All events must satisfy the contract. *)
EXTENDS P02, Json
CONSTANTS Min, Max, Attempts, MaxSteps
VARIABLES step, h, n, obs, ev, dir, levels, phase, prevh
vars == <<step, h, n, obs, ev, dir, levels, phase, prevh>>
\* level -> error ratio, growth factor on success (x1000) and shrink factor on failure (x1000)
Ratio(l) == CASE l = 0 -> 1000 [] l = 1 -> 600000 [] l = 2 -> 3000000 [] OTHER -> 90000000
Gf(l) == CASE l = 0 -> 4000 [] l = 1 -> 1150 [] OTHER -> 700
Shrink(l, x) == IF l = 2 THEN (x * 7) \div 10 ELSE x \div 3
Grow(l, x) == IF l = 0 THEN (x * 36) \div 10 ELSE (x * 103) \div 100
Clamp(x) == IF x < Min THEN Min ELSE IF x > Max THEN Max ELSE x
Sg == IF dir = "b" THEN -1 ELSE 1
T(x) == IF Sg * x >= 0 THEN <<Sg * x, 0>> ELSE <<Sg * x, 0>>
Init == /\ step \in Min..Max /\ h = 0 /\ n = 0 /\ dir \in {"f", "b"} /\ levels = <<>> /\ phase = "start" /\ prevh = 0
        /\ obs = PBegin([min |-> <<Min, 0>>, max |-> <<Max, 0>>, init |-> <<step, 0>>, fixed |-> FALSE, attempts |-> Attempts])
        /\ ev = [k |-> "call", dir |-> dir]
Obs == obs' = PApply(obs, ev)
Attempt(x, l) ==
  /\ ev' = [k |-> "att", n |-> n + 1, h |-> T(x), ratio |-> Ratio(l), rel |-> IF prevh = 0 THEN 0 ELSE (1000 * x) \div prevh, gf |-> Gf(l), final |-> FALSE]
  /\ h' = x /\ n' = n + 1 /\ levels' = Append(levels, l) /\ prevh' = x
  /\ UNCHANGED <<step, dir>>
First == /\ phase \in {"start", "next"} /\ Len(levels) < MaxSteps /\ Obs /\ phase' = "att"
         /\ \E l \in 0..3 : Attempt(step, l)
L == levels[Len(levels)]
Bad == Ratio(L) > One
Retry == /\ phase = "att" /\ Bad /\ h > Min /\ n < Attempts /\ Len(levels) < MaxSteps /\ Obs /\ phase' = "att"
         /\ \E l \in 0..3 : Attempt(Clamp(Shrink(L, h)), l)
Accept == /\ phase = "att" /\ (~Bad \/ h <= Min \/ n >= Attempts) /\ Obs /\ phase' = "next"
          /\ step' = Clamp(IF Bad THEN h ELSE Grow(L, h))
          /\ ev' = [k |-> "acc", h |-> T(h), ratio |-> Ratio(L), final |-> FALSE, parsed |-> TRUE, dif |-> 0, hasdet |-> TRUE, da |-> n, de |-> 0, ds |-> T(h)]
          /\ n' = 0 /\ UNCHANGED <<h, dir, levels, prevh>>
\* a step into something that is not a number is never taken: the call fails
Fail == /\ phase = "att" /\ Obs /\ phase' = "dead" /\ ev' = [k |-> "hole", ok |-> FALSE]
        /\ UNCHANGED <<step, h, n, dir, levels, prevh>>
Next == First \/ Retry \/ Accept \/ Fail
Spec == Init /\ [][Next]_vars
Conforms == PFails(obs, ev) = {}
Bounds == step >= Min /\ step <= Max
Emit == (phase = "next" /\ Len(levels) = MaxSteps) => PrintT("SCEN " \o ToJson([h |-> levels]))
====
