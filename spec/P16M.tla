---- MODULE P16M ----
(* Design model: a file is a table with one row per measurement in the window and a column per type of the arc, null where there is *)
(* no such measurement (parquet), or one line per cell, grouped by tracker and by kind of path (TDM); both read back to the arc.    *)
EXTENDS P16, Json, SequencesExt, FiniteSetsExt
CONSTANTS Ts, Trks, Types
VARIABLES arc, lo, hi, fmt, file, out, pc
vars == <<arc, lo, hi, fmt, file, out, pc>>
T(x) == <<x, 0>>
Slots == {<<t, k>> : t \in Ts, k \in Trks}
LtS(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] = "A" /\ y[2] = "B")
Opts == {{}} \cup (SUBSET Types)
ToArc(f) == LET ss == SetToSortSeq({s \in Slots : f[s] # {}}, LtS) IN [n \in 1..Len(ss) |-> [t |-> T(ss[n][1]), trk |-> ss[n][2], d |-> SetToSeq({<<ty, ToString(ss[n]) \o ty>> : ty \in f[ss[n]]})]]
Init == /\ arc \in {ToArc(f) : f \in [Slots -> Opts]} /\ arc # <<>>
        /\ lo \in {<<>>} \cup {<<T(t)>> : t \in Ts} /\ hi \in {<<>>} \cup {<<T(t)>> : t \in Ts}
        /\ fmt \in {"parquet", "tdm"} /\ file = <<>> /\ out = <<>> /\ pc = "write"
S0 == PBegin([arc |-> arc, lo |-> lo, hi |-> hi, alias |-> <<>>, bad |-> FALSE, exact |-> TRUE])
Rows == SelectSeq(arc, LAMBDA m : AboveLo(m.t, lo) /\ BelowHi(m.t, hi))
Cols == {c[3] : c \in Cells(arc)}
Write == /\ pc = "write" /\ pc' = "read"
         /\ file' = IF fmt = "parquet" THEN [n \in 1..Len(Rows) |-> [t |-> Rows[n].t, trk |-> Rows[n].trk, col |-> [ty \in Cols |-> LET S == {c \in Set(Rows[n].d) : c[1] = ty} IN IF S = {} THEN "null" ELSE (CHOOSE c \in S : TRUE)[2]]]]
                    ELSE FoldSet(LAMBDA k, acc : acc \o SetToSortSeq({c \in Cells(Rows) : c[2] = k /\ c[3] \in {"Range", "Doppler"}}, LAMBDA x, y : TLt(x[1], y[1]) \/ (x[1] = y[1] /\ x[3] = "Range" /\ y[3] = "Doppler"))
                                 \o SetToSortSeq({c \in Cells(Rows) : c[2] = k /\ c[3] \notin {"Range", "Doppler"}}, LAMBDA x, y : TLt(x[1], y[1])), <<>>, Trks)
         /\ UNCHANGED <<arc, lo, hi, fmt, out>>
Read == /\ pc = "read" /\ pc' = "done"
        /\ out' = IF fmt = "parquet" THEN [n \in 1..Len(file) |-> [t |-> file[n].t, trk |-> file[n].trk, d |-> SetToSeq({<<ty, file[n].col[ty]>> : ty \in {x \in DOMAIN file[n].col : file[n].col[x] # "null"}})]]
                  ELSE LET ks == SetToSortSeq({<<c[1], c[2]>> : c \in Set(file)}, LAMBDA x, y : TLt(x[1], y[1]) \/ (x[1] = y[1] /\ x[2] = "A" /\ y[2] = "B"))
                       IN [n \in 1..Len(ks) |-> [t |-> ks[n][1], trk |-> ks[n][2], d |-> SetToSeq({<<c[3], c[4]>> : c \in {x \in Set(file) : x[1] = ks[n][1] /\ x[2] = ks[n][2]}})]]
        /\ UNCHANGED <<arc, lo, hi, fmt, file>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Conforms == pc = "done" => PFails(S0, [k |-> "read", out |-> out, near |-> TRUE, mod |-> TRUE]) = {}
\* nulls read as numbers would be seen
NoNulls == pc = "read" /\ fmt = "parquet" /\ (\E n \in 1..Len(file) : \E ty \in Cols : file[n].col[ty] = "null")
           => PFails(S0, [k |-> "read", out |-> [n \in 1..Len(file) |-> [t |-> file[n].t, trk |-> file[n].trk, d |-> SetToSeq({<<ty, file[n].col[ty]>> : ty \in Cols})]], near |-> TRUE, mod |-> TRUE]) # {}
Emit == pc = "done" => PrintT("SCEN " \o ToJson([arc |-> [n \in 1..Len(arc) |-> [t |-> arc[n].t[1], trk |-> arc[n].trk, d |-> [m \in 1..Len(arc[n].d) |-> arc[n].d[m][1]]]], lo |-> lo, hi |-> hi, fmt |-> fmt]))
====
