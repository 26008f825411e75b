---- MODULE P03 ----
(* Accuracy contract of the integrators.  The flow of an autonomous system is a one-parameter group: where a history of *)
(* propagations ends depends only on the net time (clk, in ns, and the closed-form reference dr, dv at that net time).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Order(m) == CASE m = "RungeKutta4" -> 4 [] m = "CashKarp45" -> 5 [] m = "DormandPrince45" -> 5 [] m = "Verner56" -> 6
              [] m = "DormandPrince78" -> 8 [] m = "RungeKutta89" -> 9
PolyTol == 20          \* 1e-12 relative
MaxDr == 1000          \* 1e-7 km
MaxDv == 1000          \* 1e-10 km/s
PBegin(ev) == [m |-> ev.method, net |-> 0]
PFails(st, ev) ==
  CASE ev.k = "poly" -> (IF ev.deg <= Order(st.m) /\ ev.err > PolyTol THEN {"polynomial-not-exact"} ELSE {})
    [] ev.k = "rate" -> (IF ev.best10 < 10 * (Order(st.m) + 1) - 15 THEN {"order-too-low"} ELSE {})
                        \cup (IF ev.last10 < 10 * (Order(st.m) + 1) - 25 THEN {"order-lost-for-small-steps"} ELSE {})
    [] ev.k = "kep" -> (IF ev.net # st.net + ev.d \/ ev.clk > 10 THEN {"net-time"} ELSE {})
                       \cup (IF ev.dr > MaxDr THEN {"position-off-closed-form"} ELSE {})
                       \cup (IF ev.dv > MaxDv THEN {"velocity-off-closed-form"} ELSE {})
                       \cup (IF ev.tdr > MaxDr THEN {"published-states-off-closed-form"} ELSE {})
                       \cup (IF ~ev.frames THEN {"states-in-another-frame"} ELSE {})
PApply(st, ev) == IF ev.k = "kep" THEN [st EXCEPT !.net = ev.net] ELSE st
====
