---- MODULE P08M ----
(* Design model: an executor that walks the enabled phases with one phase of look-ahead, for every sequence of up to Slots      *)
(* phases, every disabled/terminate pattern, every stop name and every start position.                                          *)
EXTENDS P08, Json, FiniteSets
CONSTANTS Slots
VARIABLES kinds, until, t0, i, now, out, phase
vars == <<kinds, until, t0, i, now, out, phase>>
K == {"on", "off", "term"}
Name(j) == "p" \o ToString(j)
Ph == [j \in 1..Len(kinds) |-> [t |-> <<2 * j, 0>>, kind |-> IF kinds[j] = "term" THEN "term" ELSE "act", name |-> IF kinds[j] = "term" THEN "" ELSE Name(j), dis |-> kinds[j] = "off", ev |-> TRUE]]
Seqs == UNION {[1..n -> K] : n \in 1..Slots}
Init == /\ kinds \in Seqs /\ kinds[Len(kinds)] = "term" /\ until \in {""} \cup {Name(j) : j \in {x \in 1..Len(kinds) : kinds[x] # "term"}}
        /\ t0 \in 1..(2 * Len(kinds) + 1) /\ i = 0 /\ now = t0 /\ out = <<>> /\ phase = "start"
On(j) == kinds[j] \in {"on", "term"} \/ Name(j) = until
Max(c) == CHOOSE x \in c : \A y \in c : y <= x
Min(c) == CHOOSE x \in c : \A y \in c : x <= y
Start == /\ phase = "start"
         /\ LET c == {j \in 1..Len(kinds) : On(j) /\ 2 * j <= t0} IN
            IF c = {} THEN phase' = "err" /\ i' = i ELSE phase' = "run" /\ i' = Max(c)
         /\ UNCHANGED <<kinds, until, t0, now, out>>
Run == /\ phase = "run"
       /\ IF kinds[i] = "term" \/ Name(i) = until THEN phase' = "done" /\ UNCHANGED <<i, now, out>>
          ELSE LET n == Min({j \in i+1..Len(kinds) : On(j)}) IN
               /\ out' = Append(out, [k |-> "phase", name |-> Name(i), t0 |-> <<now, 0>>, t1 |-> <<2 * n, 0>>, wi |-> IF now = 2 * i THEN 0 ELSE 99, wo |-> IF now = 2 * i THEN 99 ELSE 0, dyn |-> 0])
               /\ now' = 2 * n /\ i' = n /\ UNCHANGED phase
       /\ UNCHANGED <<kinds, until, t0>>
Next == Start \/ Run
Spec == Init /\ [][Next]_vars
S0 == [ph |-> Ph, until |-> until, t |-> <<t0, 0>>, valid |-> TRUE, ready |-> TRUE, cur |-> 0, over |-> FALSE]
RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN [s |-> s, f |-> {}] ELSE LET f == PFails(s, Head(q)) IN IF f # {} THEN [s |-> s, f |-> f] ELSE Fold(PApply(s, Head(q)), Tail(q))
Term == IF phase = "done" THEN <<[k |-> "done"]>> ELSE IF phase = "err" THEN <<[k |-> "err"]>> ELSE <<>>
Conforms == Fold(S0, out \o Term).f = {}
(* the executed phases tile the time from the start, without gap or overlap, each at most once *)
Tiles == \A x \in 1..Len(out) : out[x].t0 = (IF x = 1 THEN <<t0, 0>> ELSE out[x-1].t1) /\ TLt(out[x].t0, out[x].t1) /\ \A y \in 1..Len(out) : x # y => out[x].name # out[y].name
(* no disabled phase ever runs *)
NoDisabled == \A x \in 1..Len(out) : \A j \in 1..Len(kinds) : kinds[j] = "off" => out[x].name # Name(j)
Done == phase \in {"done", "err"}
Emit == Done => PrintT("SCEN " \o ToJson([kinds |-> kinds, until |-> until, t0 |-> t0]))
====
