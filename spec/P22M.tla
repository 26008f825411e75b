---- MODULE P22M ----
(* Design model of the codecs.  A value has a mandatory head, optional fields (present or not) and a mandatory tail.  The writer emits   *)
(* tokens one by one, a flag before (or a mask of flags at the front of) the optional fields; the reader consumes them one by one.     *)
(* Style: "inline" a flag per field, "mask" all flags first; Mut "swap" reads the flags of the first two fields crossed over, "lax"     *)
(* reads an invalid field as absent: neither may pass.                                                                                 *)
EXTENDS P22, Json
CONSTANTS NOpt, Styles, Damages, Mut
VARIABLES pat, style, dam, buf, i, got, pc
vars == <<pat, style, dam, buf, i, got, pc>>
Init == pat \in [1..NOpt -> BOOLEAN] /\ style \in Styles /\ dam \in Damages /\ buf = <<>> /\ i = 0 /\ got = <<>> /\ pc = "write"
Head1 == <<[t |-> "head", v |-> 0]>> \o (IF style = "mask" THEN [n \in 1..NOpt |-> [t |-> "flag", v |-> IF pat[n] THEN 1 ELSE 0]] ELSE <<>>)
Field(n) == (IF style = "inline" THEN <<[t |-> "flag", v |-> IF pat[n] THEN 1 ELSE 0]>> ELSE <<>>) \o (IF pat[n] THEN <<[t |-> "val", v |-> n]>> ELSE <<>>)
Write == /\ pc = "write"
         /\ (IF i = 0 THEN buf' = Head1 ELSE IF i <= NOpt THEN buf' = buf \o Field(i) ELSE buf' = Append(buf, [t |-> "tail", v |-> 9]))
         /\ (IF i = NOpt + 1 THEN pc' = "damage" /\ i' = 0 ELSE pc' = pc /\ i' = i + 1) /\ UNCHANGED <<pat, style, dam, got>>
Vals == {n \in 1..Len(buf) : buf[n].t = "val"}
Damage == /\ pc = "damage" /\ pc' = "read" /\ UNCHANGED <<pat, style, dam, i, got>>
          /\ buf' = (CASE dam = "none" -> buf [] dam = "cut" -> SubSeq(buf, 1, Len(buf) - 1) [] dam = "more" -> Append(buf, [t |-> "val", v |-> 7])
                       [] dam = "value" -> IF Vals = {} THEN [buf EXCEPT ![1] = [t |-> "junk", v |-> 0]] ELSE [buf EXCEPT ![CHOOSE n \in Vals : TRUE] = [t |-> "junk", v |-> 0]])
Flag(k) == LET c == IF Mut = "swap" /\ k <= 2 THEN 3 - k ELSE k IN IF style = "mask" THEN buf[1 + c] ELSE buf[1]
\* the reader: i fields read so far; in mask style the flags stay at the front until the end
Fail == pc' = "err" /\ UNCHANGED <<pat, style, dam, buf, i, got>>
Rest(n) == SubSeq(buf, n + 1, Len(buf))
Pos == IF style = "mask" THEN 2 + NOpt ELSE 2
Read == /\ pc = "read"
        /\ (IF i = 0 THEN (IF buf = <<>> \/ buf[1].t # "head" THEN Fail ELSE i' = 1 /\ (buf' = IF style = "inline" THEN Tail(buf) ELSE buf) /\ UNCHANGED <<pat, style, dam, got, pc>>)
            ELSE IF i <= NOpt THEN
              (IF (style = "mask" /\ Len(buf) < 1 + NOpt) \/ buf = <<>> THEN Fail ELSE
               IF Flag(i).t # "flag" THEN Fail ELSE
               LET p == IF style = "mask" THEN 2 + NOpt ELSE 2 IN
               IF Flag(i).v = 0 THEN i' = i + 1 /\ got' = Append(got, 0) /\ (buf' = IF style = "inline" THEN Tail(buf) ELSE buf) /\ UNCHANGED <<pat, style, dam, pc>>
               ELSE IF Len(buf) < p THEN Fail
               ELSE IF buf[p].t = "val" \/ (buf[p].t = "junk" /\ Mut = "lax") THEN
                 i' = i + 1 /\ got' = Append(got, IF buf[p].t = "val" THEN buf[p].v ELSE 0)
                 /\ (buf' = IF style = "inline" THEN Rest(2) ELSE SubSeq(buf, 1, p - 1) \o Rest(p)) /\ UNCHANGED <<pat, style, dam, pc>>
               ELSE Fail)
            ELSE LET p == IF style = "mask" THEN 2 + NOpt ELSE 1 IN
               IF Len(buf) # p \/ buf[p].t # "tail" THEN Fail ELSE pc' = "ok" /\ UNCHANGED <<pat, style, dam, buf, i, got>>)
Next == Write \/ Damage \/ Read
Spec == Init /\ [][Next]_vars
Done == pc \in {"ok", "err"}
Same == pc = "ok" /\ got = [n \in 1..NOpt |-> IF pat[n] THEN n ELSE 0]
S0 == PBegin([ty |-> "T", fmt |-> style])
Ev == IF dam = "none" THEN [k |-> "rt", wrote |-> TRUE, read |-> pc = "ok", same |-> Same, stable |-> TRUE] ELSE [k |-> "dam", err |-> pc = "err", kept |-> FALSE]
Conforms == Done /\ Mut = "no" => PFails(S0, Ev) = {}
Reveals == (Mut = "swap" /\ dam = "none" /\ style = "mask" /\ pat[1] # pat[2]) \/ (Mut = "lax" /\ dam = "value" /\ (\E n \in 1..NOpt : pat[n]))
Seen == Done /\ Reveals => PFails(S0, Ev) # {}
Emit == Done /\ Mut = "no" => PrintT("SCEN " \o ToJson([pat |-> pat, dam |-> dam, style |-> style]))
====
