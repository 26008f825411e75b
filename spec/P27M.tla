---- MODULE P27M ----
(* Design model of a columnar file: entries with an optional part (a residual, a thruster), written column by column for the window; *)
(* a batch whose columns have different lengths cannot be written; the reader rebuilds entries row by row.                          *)
(* Slip: "none"; "window" the optional column ignores the window; "nulls" the reader of the optional column skips absent values.     *)
EXTENDS P27, Json
CONSTANTS N, Kinds, Slip
VARIABLES ent, lo, hi, col, n, pc, out
vars == <<ent, lo, hi, col, n, pc, out>>
T(j) == <<10 * j, 0>>
Bnds == {<<>>} \cup {<<T(j)>> : j \in 0..N + 1}
Init == /\ ent \in UNION {[1..m -> Kinds] : m \in 1..N} /\ lo \in Bnds /\ hi \in Bnds
        /\ col = [ep |-> <<>>, opt |-> <<>>] /\ n = 1 /\ pc = "ep" /\ out = <<>>
S0 == PBegin([eps |-> [j \in 1..Len(ent) |-> T(j)], lo |-> lo, hi |-> hi, step |-> <<>>, bad |-> FALSE])
Opt(j) == IF ent[j] = "tu" THEN "null" ELSE ent[j]
In(j) == InWin(S0, T(j))
Write == /\ pc \in {"ep", "opt"}
         /\ IF n > Len(ent) THEN n' = 1 /\ pc' = (IF pc = "ep" THEN "opt" ELSE IF Len(col.ep) # Len(col.opt) THEN "fail" ELSE "read") /\ UNCHANGED col
            ELSE /\ n' = n + 1 /\ UNCHANGED pc
                 /\ col' = IF pc = "ep" THEN (IF In(n) THEN [col EXCEPT !.ep = Append(@, n)] ELSE col)
                           ELSE (IF In(n) \/ Slip = "window" THEN [col EXCEPT !.opt = Append(@, Opt(n))] ELSE col)
         /\ UNCHANGED <<ent, lo, hi, out>>
Valid == SelectSeq(col.opt, LAMBDA x : x # "null")
Read == /\ pc = "read"
        /\ IF n > Len(col.ep) THEN pc' = "done" /\ UNCHANGED <<n, out>>
           ELSE /\ n' = n + 1 /\ UNCHANGED pc
                /\ out' = Append(out, <<col.ep[n], IF Slip = "nulls" THEN (IF n <= Len(Valid) THEN Valid[n] ELSE "null") ELSE col.opt[n]>>)
        /\ UNCHANGED <<ent, lo, hi, col>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Ev == IF pc = "fail" THEN [k |-> "err"]
      ELSE [k |-> "read", eps |-> [j \in 1..Len(out) |-> T(out[j][1])], diff |-> IF \E j \in 1..Len(out) : out[j][2] # Opt(out[j][1]) THEN <<"optional">> ELSE <<>>]
Over == pc \in {"done", "fail"}
Conforms == Over /\ Slip = "none" => PFails(S0, Ev) = {}
(* each slip is seen exactly when it makes a difference *)
Seen == /\ (Over /\ Slip = "window" => (PFails(S0, Ev) # {} <=> (Want(S0) # <<>> /\ \E j \in 1..Len(ent) : ~In(j))))
        /\ (Over /\ Slip = "nulls" => (PFails(S0, Ev) # {} <=> \E i, j \in 1..Len(ent) : i < j /\ In(i) /\ In(j) /\ Opt(i) = "null" /\ Opt(j) # "null"))
Emit == Over /\ Slip = "none" => PrintT("SCEN " \o ToJson([ent |-> ent, lo |-> lo, hi |-> hi]))
====
