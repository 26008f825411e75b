---- MODULE P15 ----
(* Tracking arcs as sequences of measurements [t, trk, d, rej], where d is the set of <<type, value>> pairs, and the exact result   *)
(* of each edit.  An event carries the operation, its arguments, and the arc it returned with what the arc says about itself.      *)
EXTENDS Time, FiniteSets, TLC
Set(q) == {q[n] : n \in 1..Len(q)}
\* measurements as recorded have their data as a sequence
M(x) == [t |-> x.t, trk |-> x.trk, d |-> Set(x.d), rej |-> x.rej]
Arc(q) == [n \in 1..Len(q) |-> M(q[n])]
Keep(a, P(_)) == SelectSeq(a, P)
AboveLo(t, b) == CASE b.k = "in" -> TLe(b.t, t) [] b.k = "ex" -> TLt(b.t, t) [] OTHER -> TRUE
BelowHi(t, b) == CASE b.k = "in" -> TLe(t, b.t) [] b.k = "ex" -> TLt(t, b.t) [] OTHER -> TRUE
Inside(t, lo, hi) == AboveLo(t, lo) /\ BelowHi(t, hi)
Shift(b, t) == [b EXCEPT !.t = TAdd(@, t)]
Typed(a, P(_)) == SelectSeq([n \in 1..Len(a) |-> [a[n] EXCEPT !.d = {x \in @ : P(x[1])}]], LAMBDA m : m.d # {})
Rejected(a, P(_)) == [n \in 1..Len(a) |-> IF P(a[n]) THEN [a[n] EXCEPT !.rej = TRUE] ELSE a[n]]
\* a merge is right when it has one measurement per epoch and tracker of either, with all their types, each with one of the values
Sorted(a) == \A n \in 1..Len(a) - 1 : TLt(a[n].t, a[n + 1].t) \/ (a[n].t = a[n + 1].t /\ a[n].trk # a[n + 1].trk)
MergeOk(in, out) ==
  LET Key(m) == <<m.t, m.trk>> IN
  /\ {Key(in[n]) : n \in 1..Len(in)} = {Key(out[n]) : n \in 1..Len(out)}
  /\ Cardinality({Key(out[n]) : n \in 1..Len(out)}) = Len(out)
  /\ \A n \in 1..Len(out) : LET S == {in[m] : m \in {x \in 1..Len(in) : Key(in[x]) = Key(out[n])}} IN
       /\ {x[1] : x \in out[n].d} = UNION {{x[1] : x \in m.d} : m \in S}
       /\ Cardinality({x[1] : x \in out[n].d}) = Cardinality(out[n].d)
       /\ out[n].d \subseteq UNION {m.d : m \in S}
       /\ out[n].rej = (\E m \in S : m.rej)
\* moving average over n \div 2 samples on each side, every n-th sample kept, for each tracker and rejection apart; values are the
\* recorded ones in thousandths
RECURSIVE SumOf(_, _)
SumOf(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(S \ {x}, f)
Abs(x) == IF x < 0 THEN -x ELSE x
Sub(a, trk, rej) == SelectSeq(a, LAMBDA m : m.trk = trk /\ m.rej = rej)
Val(m, ty) == (CHOOSE x \in m.d : x[1] = ty)[2]
DownOne(a, o, n) ==
  LET h == n \div 2
      want == {i \in 1..Len(a) : (i - 1) % n = 0}
  IN /\ Len(o) = Cardinality(want)
     /\ \A k \in 1..Len(o) : LET i == (k - 1) * n + 1
           W == {x \in 1..Len(a) : x >= i - h /\ x <= i + h}
        IN /\ o[k].t = a[i].t
           /\ {x[1] : x \in o[k].d} = UNION {{x[1] : x \in a[m].d} : m \in W}
           /\ \A ty \in {x[1] : x \in o[k].d} : LET Ws == {m \in W : \E x \in a[m].d : x[1] = ty} IN
                Abs(Val(o[k], ty) * Cardinality(Ws) - SumOf(Ws, [m \in Ws |-> Val(a[m], ty)])) <= Cardinality(Ws)
DownOk(a, o, step, n) ==
  /\ Sorted(o)
  /\ {m.trk : m \in Set(o)} \subseteq {m.trk : m \in Set(a)}
  /\ \A trk \in {m.trk : m \in Set(a)} : \A rej \in BOOLEAN : DownOne(Sub(a, trk, rej), Sub(o, trk, rej), n[trk])
Expect(a, ev) ==
  CASE ev.op = "filter-epoch" -> Keep(a, LAMBDA m : Inside(m.t, ev.lo, ev.hi))
    [] ev.op = "filter-offset" -> IF a = <<>> THEN a ELSE Keep(a, LAMBDA m : Inside(m.t, Shift(ev.lo, a[1].t), Shift(ev.hi, a[1].t)))
    [] ev.op = "filter-tracker" -> Keep(a, LAMBDA m : m.trk = ev.arg)
    [] ev.op = "filter-type" -> Typed(a, LAMBDA x : x = ev.arg)
    [] ev.op = "exclude-tracker" -> Keep(a, LAMBDA m : m.trk # ev.arg)
    [] ev.op = "exclude-epoch" -> Keep(a, LAMBDA m : ~Inside(m.t, ev.lo, ev.hi))
    [] ev.op = "exclude-type" -> Typed(a, LAMBDA x : x # ev.arg)
    [] ev.op = "reject-epoch" -> Rejected(a, LAMBDA m : Inside(m.t, ev.lo, ev.hi))
    [] ev.op = "reject-tracker" -> Rejected(a, LAMBDA m : m.trk = ev.arg)
    [] ev.op \in {"check", "moduli"} -> a
\* the chunks one after the other are the arc, none is empty or longer than allowed, and none could take the next measurement
ChunksOk(a, cs, mx) ==
  LET st[k \in 0..Len(cs)] == IF k = 0 THEN 0 ELSE st[k - 1] + Len(cs[k])
  IN /\ st[Len(cs)] = Len(a)
     /\ \A k \in 1..Len(cs) : Len(cs[k]) > 0 /\ Arc(cs[k]) = SubSeq(a, st[k - 1] + 1, st[k])
         /\ TLe(TSub(cs[k][Len(cs[k])].t, cs[k][1].t), mx)
         /\ (k < Len(cs) => TLt(mx, TSub(cs[k + 1][1].t, cs[k][1].t)))
MinSep(a) == LET S == {TSub(a[n + 1].t, a[n].t) : n \in 1..Len(a) - 1} IN CHOOSE x \in S : \A y \in S : TLe(x, y)
SaysOk(a, i) ==
  /\ i.len = Len(a) /\ i.empty = (a = <<>>)
  /\ Set(i.trackers) = {m.trk : m \in Set(a)} /\ Len(i.trackers) = Cardinality(Set(i.trackers))
  /\ Set(i.types) = UNION {{x[1] : x \in m.d} : m \in Set(a)} /\ Len(i.types) = Cardinality(Set(i.types))
  /\ IF a = <<>> THEN i.first = <<>> /\ i.last = <<>> /\ i.dur = <<>> /\ i.sep = <<>>
     ELSE i.first = <<a[1].t>> /\ i.last = <<a[Len(a)].t>> /\ i.dur = <<TSub(a[Len(a)].t, a[1].t)>>
          /\ IF Len(a) > 1 THEN i.sep = <<MinSep(a)>> ELSE TRUE
PBegin(ev) == [a |-> Arc(ev.arc), mod |-> ev.mod]
\* rest: the arc given, its moduli, source and flag to reject everything are as expected
PFails(s, ev) ==
  IF ev.k # "op" THEN {} ELSE
  LET out == Arc(ev.out) IN
  (CASE ev.op = "add" -> IF ~MergeOk(s.a \o Arc(ev.with), out) THEN {"merge"} ELSE IF ~Sorted(out) THEN {"merge-order"} ELSE {}
     [] ev.op = "down" -> IF DownOk(s.a, out, ev.step, ev.n) THEN {} ELSE {"downsample"}
     [] ev.op = "chunk" -> IF ChunksOk(s.a, ev.chunks, ev.max) THEN {} ELSE {"chunk"}
     [] ev.op = "eq" -> IF ev.got = ev.want THEN {} ELSE {"equality"}
     [] OTHER -> IF Expect(s.a, ev) = out THEN {} ELSE {ev.op})
  \cup (IF ev.op \in {"chunk", "eq"} \/ SaysOk(out, ev.says) THEN {} ELSE {"description"})
  \cup (IF ev.rest THEN {} ELSE {"attributes"})
PApply(s, ev) == IF ev.k = "op" /\ ev.op \notin {"chunk", "eq"} THEN [s EXCEPT !.a = Arc(ev.out)] ELSE s
====
