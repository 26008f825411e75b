---- MODULE P22 ----
(* Writing and reading configurations.  rt: a value was written in a format and read back; same: what was read shows exactly what was   *)
(* written.  dam: the text or bytes were damaged before reading; err: reading failed; kept: what was read still shows the damage (a     *)
(* free text), so that nothing was lost silently.                                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
PBegin(ev) == [ty |-> ev.ty, fmt |-> ev.fmt]
PFails(s, ev) ==
  CASE ev.k = "rt" -> (IF ~ev.wrote THEN {IF s.ty = "SpacecraftSequence" /\ s.fmt = "dhall" THEN "sequence-not-written-dhall" ELSE "not-written-" \o s.fmt} ELSE IF ~ev.read THEN {"not-read-back-" \o s.fmt} ELSE IF ~ev.same THEN {"changed-by-" \o s.fmt} ELSE {})
                      \cup (IF ~ev.stable THEN {"length-misreported"} ELSE {})
    [] ev.k = "dam" -> IF ~ev.err /\ ~ev.kept THEN {"damage-accepted-" \o s.fmt} ELSE {}
    [] ev.k = "file" -> (IF ~ev.same THEN {"file-changed"} ELSE {}) \cup (IF ~ev.missing THEN {"missing-file-accepted"} ELSE {})
    [] OTHER -> {"harness"}
PApply(s, ev) == s
====
