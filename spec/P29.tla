---- MODULE P29 ----
(* The spacecraft state as a record of named quantities.  Every operation changes the quantities it names, to the values it names, and    *)
(* nothing else; an operation which is refused changes nothing; every parameter reads back the quantity it is named after.              *)
(* Units: m, mm/s, 1e-6 for Cr and Cd, g, cm2, ms of Isp, mN, 1e-4 for the thrust direction, s past a reference epoch.                  *)
(* obs: the state after the operation; chg: the quantities whose bits changed; reads: the parameters whose value is not the quantity    *)
(* (by their own closed form); kep: the Keplerian elements (m, 1e-8, 1e-6 deg); well: these are well conditioned before and after.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Cart == {"x", "y", "z", "vx", "vy", "vz"}
Dir == {"dx", "dy", "dz"}
Scal == {"cr", "cd", "prop", "dry", "extra", "sa", "da", "isp", "thr"}
Kep == {"sma", "ecc", "inc", "raan", "aop", "ta"}
PBegin(ev) == [q |-> ev.obs, kep |-> ev.kep]
Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 2000000 THEN 2000000 ELSE x
(* whether the operation is accepted *)
Accepted(q, ev) ==
  IF ev.op # "set" THEN TRUE ELSE
  CASE ev.p \in {"isp", "thr"} -> q.hasthr
    [] ev.p \in Cart \cup Kep \cup {"cr", "cd", "prop", "dry", "rmag", "vmag", "tx", "ty", "tz"} -> TRUE
    [] OTHER -> FALSE
(* the quantities an accepted operation may change *)
Touches(ev) ==
  CASE ev.op = "set" -> (CASE ev.p \in {"tx", "ty", "tz"} -> Dir \cup {"hasdir"} [] ev.p = "rmag" -> {"x", "y", "z"} [] ev.p = "vmag" -> {"vx", "vy", "vz"}
                           [] ev.p \in Kep -> Cart [] OTHER -> {ev.p})
    [] ev.op = "with" -> {ev.p[i] : i \in 1..Len(ev.p)}
    [] ev.op = "vec" -> Cart \cup {"cr", "cd", "prop", "ep", "stm"}
    [] ev.op = "add9" -> Cart \cup {"cr", "cd", "prop"}
    [] ev.op = "add6" -> Cart
    [] ev.op = "epoch" -> {"ep"}
    [] ev.op = "dv" -> {"vx", "vy", "vz"}
    [] ev.op \in {"enable", "reset", "unset"} -> {"stm"}
    [] ev.op = "dir" -> Dir \cup {"hasdir"}
    [] ev.op = "mode" -> {"mode"}
    [] OTHER -> {}
Vec == <<"x", "y", "z", "vx", "vy", "vz", "cr", "cd", "prop">>
Idx(f) == CHOOSE i \in 1..9 : Vec[i] = f
(* the value of a quantity after an accepted operation, for those the operation determines by itself *)
After(q, ev, f) ==
  IF f \notin Touches(ev) THEN q[f] ELSE
  CASE ev.op = "set" -> ev.v
    [] ev.op = "with" -> ev.v[CHOOSE i \in 1..Len(ev.p) : ev.p[i] = f]
    [] ev.op = "vec" -> IF f = "ep" THEN ev.e ELSE IF f = "cr" THEN Clamp(ev.v[7]) ELSE ev.v[Idx(f)]
    [] ev.op \in {"add9", "add6"} -> IF f = "cr" THEN Clamp(q.cr + ev.v[7]) ELSE q[f] + ev.v[Idx(f)]
    [] ev.op = "epoch" -> ev.e
    [] ev.op = "dv" -> q[f] + ev.v[Idx(f) - 3]
    [] ev.op = "mode" -> ev.v
    [] OTHER -> q[f]
Determined(ev) == IF ev.op = "set" /\ ev.p \in Kep \cup {"rmag", "vmag"} THEN (Scal \cup Cart \cup {"ep", "mode"}) \ Touches(ev)
                  ELSE Scal \cup Cart \cup {"ep", "mode"}
StmAfter(q, ev) == CASE ev.op \in {"enable", "reset"} -> "id" [] ev.op = "unset" -> "none"
                     [] ev.op = "vec" -> IF q.stm = "none" THEN "none" ELSE "set" [] OTHER -> q.stm
(* the thrust direction: the unit vector along the requested one, none along nothing *)
Want(q, ev) == LET d == IF q.hasdir THEN <<q.dx, q.dy, q.dz>> ELSE <<0, 0, 0>> IN
               IF ev.op = "dir" THEN ev.v
               ELSE CASE ev.p = "tx" -> <<ev.v, d[2], d[3]>> [] ev.p = "ty" -> <<d[1], ev.v, d[3]>> [] OTHER -> <<d[1], d[2], ev.v>>
Along(o, w) == /\ Abs(o[2]*w[3] - o[3]*w[2]) <= 40000 /\ Abs(o[3]*w[1] - o[1]*w[3]) <= 40000 /\ Abs(o[1]*w[2] - o[2]*w[1]) <= 40000
               /\ o[1]*w[1] + o[2]*w[2] + o[3]*w[3] > 0 /\ Abs(o[1]*o[1] + o[2]*o[2] + o[3]*o[3] - 100000000) <= 60000
IsDir(ev) == ev.op = "dir" \/ (ev.op = "set" /\ ev.p \in {"tx", "ty", "tz"})
DirOk(q, ev) == LET w == Want(q, ev) o == ev.obs IN
  IF Abs(w[1]) + Abs(w[2]) + Abs(w[3]) <= 1 THEN TRUE       \* one rounding unit: the harness reports the exact zero vector as such
  ELSE o.hasdir /\ Along(<<o.dx, o.dy, o.dz>>, w)
Turn(a, b) == LET d == Abs(a - b) IN IF d > 180000000 THEN 360000000 - d ELSE d
Far(e, a, b) == CASE e = "sma" -> Abs(a - b) > 2 + Abs(b) \div 100000000 [] e = "ecc" -> Abs(a - b) > 20 [] OTHER -> Turn(a, b) > 50
KepFails(s, ev) ==
  IF ~ev.well THEN {} ELSE
  UNION {IF Far(e, ev.kep[e], IF e = ev.p THEN ev.v ELSE s.kep[e]) THEN {IF e = ev.p THEN "element-not-set" ELSE "other-element-changed"} ELSE {} : e \in Kep}
PFails(s, ev) ==
  CASE ev.k = "op" ->
      LET q == s.q o == ev.obs chg == {ev.chg[i] : i \in 1..Len(ev.chg)} IN
      (IF ev.ok # Accepted(q, ev) THEN {IF ev.ok THEN "accepted-what-is-read-only" ELSE "refused"} ELSE
       IF ~ev.ok THEN (IF chg # {} THEN {"refused-but-changed"} ELSE {}) ELSE
         (IF chg \subseteq Touches(ev) THEN {} ELSE {"changed-something-else"})
         \cup (IF \E f \in Determined(ev) : Abs(o[f] - After(q, ev, f)) > 1 THEN {"wrong-value"} ELSE {})
         \cup (IF o.stm # StmAfter(q, ev) THEN {"state-transition-matrix"} ELSE {})
         \cup (IF IsDir(ev) /\ ~DirOk(q, ev) THEN {"thrust-direction"} ELSE {})
         \cup (IF ev.op = "set" /\ ev.p \in Kep THEN KepFails(s, ev) ELSE {})
         \cup (IF ev.op = "set" /\ ev.p \in {"rmag", "vmag"} /\ (Abs(ev.mag - ev.v) > 1 \/ ev.turned > 1000) THEN {"magnitude"} ELSE {}))
      \cup (IF ~ev.fin THEN {"not-a-number"} ELSE {}) \cup (IF ev.reads # <<>> THEN {"reads-another-quantity"} ELSE {})
    [] ev.k = "eq" -> IF ev.got # ev.want THEN {"equality"} ELSE {}
    [] OTHER -> {"harness"}
PApply(s, ev) == IF ev.k = "op" THEN [q |-> ev.obs, kep |-> ev.kep] ELSE s
====
