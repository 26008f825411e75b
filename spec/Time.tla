---- MODULE Time ----
(* Time as pairs <<seconds, nanoseconds>>, 0 <= nanoseconds < 10^9: exact to the nanosecond in TLC's 32-bit integers. *)
EXTENDS Integers, Sequences
Giga == 1000000000
TZ == <<0, 0>>
TLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TLe(a, b) == ~TLt(b, a)
TAdd(a, b) == LET n == a[2] + b[2] IN IF n >= Giga THEN <<a[1] + b[1] + 1, n - Giga>> ELSE <<a[1] + b[1], n>>
TNeg(a) == IF a[2] = 0 THEN <<-a[1], 0>> ELSE <<-a[1] - 1, Giga - a[2]>>
TSub(a, b) == TAdd(a, TNeg(b))
TAbs(a) == IF a[1] < 0 THEN TNeg(a) ELSE a
TMin(a, b) == IF TLt(a, b) THEN a ELSE b
TMax(a, b) == IF TLt(a, b) THEN b ELSE a
TSgn(a) == IF a[1] < 0 THEN -1 ELSE IF a = TZ THEN 0 ELSE 1
(* a and b differ by at most n nanoseconds, n < Giga *)
TNear(a, b, n) == LET d == TAbs(TSub(a, b)) IN d[1] = 0 /\ d[2] <= n
TIncreasing(s) == \A j \in 1..Len(s)-1 : TLt(s[j], s[j+1])
TDecreasing(s) == \A j \in 1..Len(s)-1 : TLt(s[j+1], s[j])
====
