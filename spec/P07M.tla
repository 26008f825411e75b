---- MODULE P07M ----
(* Design model: the burn automaton on a grid of steps (2 ticks each) with the window boundaries on any tick, in either         *)
(* direction of time, with a finite amount of propellant (in steps), and an initial mode chosen by the user.                    *)
EXTENDS P07, Json, FiniteSets
CONSTANTS Steps, MaxFuel
VARIABLES now, mode, fuel, st, en, dir, k, fuel0, on, init, phase
vars == <<now, mode, fuel, st, en, dir, k, fuel0, on, init, phase>>
H == 2 * Steps
T(x) == <<x, 0>>
S == [mode |-> mode, t |-> T(now), start |-> T(st), end |-> T(en), decr |-> TRUE, bad |-> FALSE]
Init == /\ dir \in {1, -1} /\ st \in (-1)..H+1 /\ en \in st..H+1 /\ fuel0 \in {0, 1, 2, MaxFuel}
        /\ init \in {"Thrust", "Coast"} /\ now = (IF dir = 1 THEN 0 ELSE H)
        /\ mode = (IF st <= now /\ now <= en THEN "Thrust" ELSE "Coast") /\ fuel = fuel0 /\ k = 0 /\ on = {} /\ phase = "run"
\* going backward a thrusting step gives the propellant back
Step == /\ phase = "run" /\ k < Steps
        /\ LET t1 == now + 2 * dir  f1 == IF mode = "Thrust" THEN fuel - dir ELSE fuel IN
           IF f1 < 0 THEN phase' = "err" /\ UNCHANGED <<now, mode, fuel, k, on>>
           ELSE /\ now' = t1 /\ fuel' = f1 /\ k' = k + 1 /\ mode' = ModeAt(S, T(t1))
                /\ on' = (IF mode = "Thrust" THEN on \cup {now} ELSE on) /\ UNCHANGED phase
        /\ UNCHANGED <<st, en, dir, fuel0, init>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == phase = "err" \/ k = Steps
(* each step the automaton can take is one the property allows *)
Ev == LET t1 == now + 2 * dir IN
      [k |-> "step", t0 |-> T(now), t1 |-> T(t1), mode |-> ModeAt(S, T(t1)), on |-> IF mode = "Thrust" THEN 0 ELSE 999, off |-> IF mode = "Thrust" THEN 999 ELSE 0,
       mon |-> IF mode = "Thrust" THEN 0 ELSE 999, moff |-> IF mode = "Thrust" THEN 999 ELSE 0, dry |-> "same", neg |-> FALSE, dir |-> IF mode = "Thrust" THEN "ok" ELSE "none"]
Conforms == /\ (phase = "run" /\ k < Steps /\ (mode = "Thrust" => fuel - dir >= 0)) => PFails(S, Ev) = {}
            /\ phase = "err" => PFails(S, [k |-> "err", exhausts |-> TRUE, nothr |-> FALSE]) = {}
(* propellant is conserved and never negative; the steps that thrust are exactly those that start in the *)
(* window, whatever the mode the user gave the initial state                                                *)
Origin == IF dir = 1 THEN 0 ELSE H
Conserve == fuel >= 0 /\ fuel = fuel0 - dir * Cardinality(on)
Exact == \A x \in 0..H : ((IF dir = 1 THEN x < now ELSE x > now) /\ (x - Origin) % 2 = 0) => (x \in on <=> (st <= x /\ x <= en))
Emit == Done => PrintT("SCEN " \o ToJson([st |-> st, en |-> en, back |-> IF dir = 1 THEN 0 ELSE 1, fuel |-> IF fuel0 = MaxFuel THEN 99 ELSE fuel0, init |-> init]))
====
