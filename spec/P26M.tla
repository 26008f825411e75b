---- MODULE P26M ----
(* Design model: a model is a pair of optional parts; each sample takes its draws, in order, from a generator that is a stream of       *)
(* numbered draws, and the bias keeps its first draw.  Two runs from the same point of the stream must give the same samples.  Slips:   *)
(* "global" the bias draws from a stream shared between the runs, "sticky" the second run starts with the bias left by the first.      *)
EXTENDS P26, Json
CONSTANTS Kinds, Eps, Devs, N, Slip
VARIABLES conf, run, pos, glob, init, out
vars == <<conf, run, pos, glob, init, out>>
Init == /\ conf \in [kind : Kinds, epochs : Eps, cst : BOOLEAN, dev : Devs] /\ (conf.cst => conf.kind \in {"gm", "both"})
        /\ (conf.dev # "none" => conf.epochs = "fwd" /\ conf.kind # "none")
        /\ run = 1 /\ pos = 0 /\ glob = 0 /\ init = -1 /\ out = <<<<>>, <<>>>>
White == conf.kind \in {"white", "both"}
Bias == conf.kind \in {"gm", "both"}
Sample ==
  LET p1 == pos + (IF White THEN 1 ELSE 0)
      first == Bias /\ init = -1
      b0 == IF first THEN (IF Slip = "global" THEN 1000 + glob ELSE p1) ELSE init
      p2 == p1 + (IF first /\ Slip # "global" THEN 1 ELSE 0)
      p3 == p2 + (IF Bias THEN 1 ELSE 0)
  IN /\ run \in {1, 2} /\ Len(out[run]) < N
     /\ out' = [out EXCEPT ![run] = Append(@, <<IF White THEN pos ELSE -1, IF Bias THEN b0 ELSE -1, IF Bias THEN p2 ELSE -1>>)]
     /\ init' = (IF Bias THEN b0 ELSE init) /\ pos' = p3 /\ glob' = (IF first /\ Slip = "global" THEN glob + 1 ELSE glob)
     /\ UNCHANGED <<conf, run>>
Again == /\ run \in {1, 2} /\ Len(out[run]) = N /\ run' = run + 1 /\ pos' = 0 /\ init' = (IF Slip = "sticky" THEN init + 500 ELSE -1) /\ UNCHANGED <<conf, glob, out>>
Next == Sample \/ Again
Spec == Init /\ [][Next]_vars
S0 == PBegin(conf)
Ev == [k |-> "repro", same |-> out[1] = out[2], differ |-> IF conf.kind = "none" THEN 0 ELSE 300, fin |-> TRUE]
Conforms == run = 3 /\ Slip = "no" => PFails(S0, Ev) = {}
Seen == run = 3 /\ Slip # "no" => (Bias <=> PFails(S0, Ev) # {})
NoDoubleUse == Slip = "no" => \A i, j \in 1..Len(out[1]) : i < j /\ White => out[1][i][1] # out[1][j][1]
Emit == run = 3 /\ Slip = "no" => PrintT("SCEN " \o ToJson(conf))
====
