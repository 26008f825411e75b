---- MODULE P01 ----
(* Observable contract of a propagator instance: what a call may return and publish, given where the instance is. *)
EXTENDS Time, FiniteSets, TLC
Last(s) == s[Len(s)]
(* A specification state is the epoch and the (fingerprint of the) state the instance is at. *)
PBegin(ev) == [now |-> TZ, bits |-> ev.bits0]
Past(dir, a, b) == IF dir = "b" THEN TLt(b, a) ELSE TLt(a, b)      \* b is strictly beyond a
Within(dir, a, x, b) == IF dir = "b" THEN TLe(b, x) /\ TLe(x, a) ELSE TLe(a, x) /\ TLe(x, b)
OkFails(st, ev) ==
  IF ev.dir = "z"
  THEN (IF ev.ret # st.now \/ ev.retbits # st.bits THEN {"zero-duration-changed-state"} ELSE {})
       \cup (IF ev.inst # st.now \/ ev.instbits # st.bits THEN {"zero-duration-moved-instance"} ELSE {})
       \cup (IF ev.pub # <<>> THEN {"zero-duration-published"} ELSE {})
  ELSE (IF ev.ret # ev.req THEN {"returned-epoch-not-requested"} ELSE {})
       \cup (IF ev.inst # ev.ret \/ ev.instbits # ev.retbits THEN {"instance-not-at-returned-state"} ELSE {})
       \cup (IF ev.op # "chan" THEN {} ELSE
             IF ev.pub = <<>> THEN {"nothing-published"} ELSE
               (IF \E j \in 1..Len(ev.pub)-1 : ~Past(ev.dir, ev.pub[j], ev.pub[j+1]) THEN {"published-out-of-order"} ELSE {})
               \cup (IF ~Past(ev.dir, st.now, ev.pub[1]) THEN {"published-not-beyond-start"} ELSE {})
               \cup (IF Last(ev.pub) # ev.req \/ ev.lastbits # ev.retbits THEN {"last-published-not-returned"} ELSE {}))
       \cup (IF ev.op # "traj" THEN {} ELSE
             IF Len(ev.traj) < 2 THEN {"trajectory-too-short"} ELSE
               (IF ~TIncreasing(ev.traj) THEN {"trajectory-not-increasing"} ELSE {})
               \cup (IF ev.traj[1] # TMin(st.now, ev.req) \/ Last(ev.traj) # TMax(st.now, ev.req) THEN {"trajectory-span"} ELSE {})
               \cup (IF (IF ev.dir = "b" THEN ev.trajends[2] # st.bits \/ ev.trajends[1] # ev.retbits
                                        ELSE ev.trajends[1] # st.bits \/ ev.trajends[2] # ev.retbits)
                     THEN {"trajectory-ends-differ"} ELSE {}))
PFails(st, ev) ==
  IF ev.op = "event" THEN (IF ~Within(ev.dir, st.now, ev.inst, ev.req) THEN {"event-search-left-window"} ELSE {})
                          \cup (IF ev.ok /\ ~Within(ev.dir, st.now, ev.ret, ev.req) THEN {"event-state-outside-window"} ELSE {})
  ELSE IF ev.ok THEN OkFails(st, ev) \cup (IF ev.blown THEN {"error-of-the-dynamics-swallowed"} ELSE {})
  ELSE (IF ~ev.blown THEN {"spurious-error"} ELSE {})
       \cup (IF ~Within(ev.dir, st.now, ev.inst, ev.req) THEN {"failed-call-left-window"} ELSE {})
PApply(st, ev) == [now |-> ev.inst, bits |-> ev.instbits]
====
