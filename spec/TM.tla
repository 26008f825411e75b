---- MODULE TM ----
(* Trace machine: replays a recorded trace through the transition relation of a property module.            *)
(* Begin(ev) is the specification state a case starts in; Fails(st, ev) is the set of names of the clauses   *)
(* of the specification that event ev breaks in state st; Apply(st, ev) is the state after an allowed event. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
CONSTANTS Begin(_), Fails(_, _), Apply(_, _)
VARIABLES i, st, skip, nbad
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<i, st, skip, nbad>>
TInit == i = 0 /\ st = [none |-> TRUE] /\ skip = FALSE /\ nbad = 0
TNext ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i+1] IN
     IF ev.k = "begin" THEN st' = Begin(ev) /\ skip' = FALSE /\ nbad' = nbad
     ELSE IF skip THEN UNCHANGED <<st, skip, nbad>>
     ELSE IF ev.k = "end" THEN UNCHANGED <<st, skip, nbad>>
     ELSE LET f == IF ev.k \in {"panic", "hang"} THEN {ev.k} ELSE Fails(st, ev) IN
          IF f = {} THEN st' = Apply(st, ev) /\ UNCHANGED <<skip, nbad>>
          ELSE /\ PrintT(<<"REJECT", ev.c, i + 1, f>>)
               /\ skip' = TRUE /\ nbad' = nbad + 1 /\ st' = st
TSpec == TInit /\ [][TNext]_tvars
TPost == /\ PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
         /\ TLCGet("stats").diameter = Len(Trace) + 1
====
