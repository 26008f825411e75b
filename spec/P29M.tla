---- MODULE P29M ----
(* Design model: the implementation keeps the state in structures but integrates a flat vector of nine numbers and a matrix, so that      *)
(* quantities move between names and positions; Slips: "swap" exchanges two positions, "raw" does not clamp Cr, "leak" moves the dry      *)
(* mass with the propellant, "keep" leaves the matrix when a vector without one is set, "ro" accepts the total mass.                     *)
EXTENDS P29, Json
CONSTANTS Ops, Depth, Slip
VARIABLES q, hist, ev, st
vars == <<q, hist, ev, st>>
Zero == [x |-> 10, y |-> 20, z |-> 30, vx |-> 1, vy |-> 2, vz |-> 3, cr |-> 1800000, cd |-> 2200000, prop |-> 50, dry |-> 500, extra |-> 0, sa |-> 7, da |-> 8, isp |-> 300, thr |-> 9,
         hasthr |-> TRUE, dx |-> 0, dy |-> 0, dz |-> 0, hasdir |-> FALSE, mode |-> 0, stm |-> "none", ep |-> 0]
K0 == [e \in Kep |-> 0]
Init == /\ q \in {[Zero EXCEPT !.hasthr = t, !.stm = m] : t \in BOOLEAN, m \in {"none", "id"}} /\ hist = <<>> /\ ev = [k |-> "none"] /\ st = PBegin([obs |-> q, kep |-> K0])
V9 == <<11, 21, 31, 4, 5, 6, 3000000, 2345000, 40>>
Pos == IF Slip = "swap" THEN <<1, 2, 3, 4, 5, 6, 8, 7, 9>> ELSE <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
Lim(x) == IF Slip = "raw" THEN x ELSE Clamp(x)
FromVec(v) == [q EXCEPT !.x = v[Pos[1]], !.y = v[Pos[2]], !.z = v[Pos[3]], !.vx = v[Pos[4]], !.vy = v[Pos[5]], !.vz = v[Pos[6]], !.cr = Lim(v[Pos[7]]), !.cd = v[Pos[8]], !.prop = v[Pos[9]]]
ToVec == <<q.x, q.y, q.z, q.vx, q.vy, q.vz, q.cr, q.cd, q.prop>>
Do(o) == CASE o = "vec" -> [FromVec(V9) EXCEPT !.ep = 5, !.stm = IF q.stm = "none" /\ Slip # "keep" THEN "none" ELSE "set"]
           [] o = "add9" -> FromVec([i \in 1..9 |-> ToVec[i] + V9[i]])
           [] o = "prop" -> [q EXCEPT !.prop = 33, !.dry = IF Slip = "leak" THEN @ - 1 ELSE @]
           [] o = "cr" -> [q EXCEPT !.cr = 1500000]
           [] o = "isp" -> IF q.hasthr THEN [q EXCEPT !.isp = 250] ELSE q
           [] o = "total" -> IF Slip = "ro" THEN [q EXCEPT !.dry = 1] ELSE q
           [] o = "tx" -> [q EXCEPT !.hasdir = TRUE, !.dx = 10000, !.dy = 0, !.dz = 0]
           [] o = "enable" -> [q EXCEPT !.stm = "id"]
           [] o = "unset" -> [q EXCEPT !.stm = "none"]
           [] o = "mode" -> [q EXCEPT !.mode = 2]
           [] OTHER -> q
IsSet(o) == o \in {"prop", "cr", "isp", "total", "tx"}
Ok(o) == CASE o = "isp" -> q.hasthr [] o = "total" -> Slip = "ro" [] OTHER -> TRUE
Val(o) == CASE o = "prop" -> 33 [] o = "cr" -> 1500000 [] o = "isp" -> 250 [] o = "tx" -> 10000 [] o = "total" -> 1 [] OTHER -> 2
Fields == DOMAIN Zero
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Step(o) == LET n == Do(o) IN
  /\ q' = n /\ hist' = Append(hist, o)
  /\ ev' = [k |-> "op", op |-> IF IsSet(o) THEN "set" ELSE o, p |-> o, v |-> IF o \in {"vec", "add9"} THEN V9 ELSE Val(o), e |-> 5, ok |-> Ok(o), obs |-> n,
            chg |-> SeqOf({f \in Fields : n[f] # q[f]}), reads |-> <<>>, kep |-> K0, well |-> TRUE, fin |-> TRUE, mag |-> 0, turned |-> 0]
  /\ st' = IF ev.k = "none" THEN st ELSE PApply(st, ev)
Next == Len(hist) < Depth /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars
Bad == ev.k = "op" /\ PFails(st, ev) # {}
Conforms == Slip = "none" => ~Bad
Last == hist[Len(hist)]
Seen == Slip # "none" /\ hist # <<>> =>
  Bad = (CASE Slip = "swap" -> Last \in {"vec", "add9"}
           [] Slip = "raw" -> Last \in {"vec", "add9"}
           [] Slip = "leak" -> Last = "prop"
           [] Slip = "keep" -> Last = "vec" /\ st.q.stm = "none"
           [] OTHER -> Last = "total")
Emit == Slip = "none" /\ Len(hist) = Depth => PrintT("SCEN " \o ToJson([thr |-> q.hasthr, ops |-> hist]))
====
