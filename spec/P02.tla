---- MODULE P02 ----
(* Step-size control of one propagator instance.  A step is a sequence of attempts (att), the last of which is accepted (acc). *)
(* ratio = 10^6 * estimated error / tolerance.  A slack of a few nanoseconds covers the rounding of steps to whole nanoseconds. *)
EXTENDS Time, FiniteSets, TLC
NS == 3
One == 1000000
Eps == 2000         \* relative slack (2e-3) on the comparison of the recomputed error with the tolerance
PBegin(ev) == [min |-> ev.min, max |-> ev.max, init |-> ev.init, fixed |-> ev.fixed, attempts |-> ev.attempts,
               dir |-> "f", fresh |-> TRUE, newcall |-> TRUE, n |-> 0, h |-> TZ, ratio |-> 0, accratio |-> 0, acch |-> TZ, accgf |-> 0, gf |-> 0]
AtMost(a, b) == TLe(a, TAdd(b, <<0, NS>>))
AtLeast(a, b) == AtMost(b, a)
AtMin(st, h) == AtMost(TAbs(h), st.min)
AtMax(st, h) == AtLeast(TAbs(h), st.max)
SameDir(st, h) == TSgn(h) = (IF st.dir = "b" THEN -1 ELSE 1)
Meets(r) == r <= One + Eps
Exceeds(r) == r >= One - Eps
FirstFails(st, ev) ==
  (IF ev.n # 1 THEN {"attempt-count"} ELSE {})
  \cup (IF ev.final THEN {} ELSE
        (IF st.fixed /\ TAbs(ev.h) # st.init THEN {"fixed-step-not-the-configured-one"} ELSE {})
        \cup (IF ~st.fixed /\ ~AtMost(TAbs(ev.h), st.max) THEN {"step-above-maximum"} ELSE {})
        \cup (IF ~st.fixed /\ ~AtLeast(TAbs(ev.h), st.min) THEN {"step-below-minimum"} ELSE {})
        \cup (IF ~st.fixed /\ st.fresh /\ ~TNear(TAbs(ev.h), st.init, NS) THEN {"first-step-not-initial-step"} ELSE {})
        \cup (IF st.fixed \/ st.fresh \/ st.newcall THEN {} ELSE
              IF st.accratio < One - Eps
              THEN (IF ev.rel < 890 /\ ~AtMax(st, ev.h) THEN {"step-shrunk-after-success"} ELSE {})
                   \cup (IF st.accgf >= 2000 /\ ev.rel < 1100 /\ ~AtMax(st, ev.h) THEN {"step-not-grown-after-success"} ELSE {})
                   \cup (IF st.accratio > 5000 /\ ev.rel > st.accgf + 30 /\ ~AtMin(st, ev.h) THEN {"step-grown-beyond-error-prediction"} ELSE {})
              ELSE IF st.accratio > One + Eps /\ ev.rel > 1001 /\ ~AtMin(st, ev.h) THEN {"step-grown-after-failure"} ELSE {}))
RetryFails(st, ev) ==
  (IF ev.n # st.n + 1 THEN {"attempt-count"} ELSE {})
  \cup (IF st.fixed THEN {"fixed-step-retried"} ELSE {})
  \cup (IF ~Exceeds(st.ratio) THEN {"rejected-within-tolerance"} ELSE {})
  \cup (IF TLt(TAdd(TAbs(st.h), <<0, NS>>), st.min) THEN {"rejected-below-minimum"} ELSE {})
  \cup (IF st.n >= st.attempts THEN {"too-many-attempts"} ELSE {})
  \cup (IF ~TLt(TAbs(ev.h), TAbs(st.h)) /\ ~AtMin(st, ev.h) THEN {"retry-not-shorter"} ELSE {})
  \cup (IF ~AtLeast(TAbs(ev.h), st.min) THEN {"retry-below-minimum"} ELSE {})
AttFails(st, ev) == (IF ~SameDir(st, ev.h) THEN {"step-in-wrong-direction"} ELSE {})
                    \cup (IF st.n = 0 THEN FirstFails(st, ev) ELSE RetryFails(st, ev))
AccFails(st, ev) ==
  (IF ~SameDir(st, ev.h) THEN {"step-in-wrong-direction"} ELSE {})
  \cup (IF ev.dif > 100 THEN {"state-not-the-method's-step"} ELSE {})
  \cup (IF ev.parsed /\ ~TNear(ev.h, st.h, NS) THEN {"epoch-advance-differs-from-step"} ELSE {})
  \cup (IF ev.final THEN (IF ~AtMost(TAbs(ev.h), st.max) THEN {"final-step-above-maximum"} ELSE {}) ELSE
        IF st.fixed THEN (IF TAbs(ev.h) # st.init THEN {"fixed-step-not-the-configured-one"} ELSE {}) ELSE
        (IF ~Meets(ev.ratio) /\ ~AtMin(st, ev.h) /\ (IF ev.parsed THEN st.n < st.attempts ELSE ev.da < st.attempts)
         THEN {"accepted-above-tolerance"} ELSE {})
        \cup (IF ~AtMost(TAbs(ev.h), st.max) THEN {"step-above-maximum"} ELSE {})
        \cup (IF ~AtLeast(TAbs(ev.h), st.min) THEN {"step-below-minimum"} ELSE {}))
  \cup (IF ~ev.hasdet THEN {} ELSE
        (IF ev.parsed /\ ev.da # st.n THEN {"reported-attempts"} ELSE {})
        \cup (IF ev.de > 20000 THEN {"reported-error"} ELSE {})
        \cup (IF ~TNear(ev.ds, ev.h, NS) THEN {"reported-step"} ELSE {}))
PFails(st, ev) == CASE ev.k = "call" -> {} [] ev.k = "hole" -> (IF ev.ok THEN {"not-a-number-accepted"} ELSE {}) [] ev.k = "att" -> AttFails(st, ev) [] ev.k = "acc" -> AccFails(st, ev)
PApply(st, ev) ==
  CASE ev.k = "hole" -> st [] ev.k = "call" -> [st EXCEPT !.dir = ev.dir, !.n = 0, !.newcall = TRUE]
    [] ev.k = "att" -> [st EXCEPT !.n = ev.n, !.h = ev.h, !.ratio = ev.ratio, !.gf = ev.gf]
    [] ev.k = "acc" -> [st EXCEPT !.n = 0, !.fresh = FALSE, !.newcall = ev.final, !.accratio = ev.ratio, !.acch = ev.h, !.accgf = st.gf]
====
