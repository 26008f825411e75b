SPECIFICATION Spec
CONSTANTS
 Kinds = {"none", "white", "gm", "both"}
 Eps = {"fwd", "same", "back", "gap"}
 Devs = {"none", "gs", "link", "pos"}
 N = 3
 Slip = "global"
INVARIANTS Conforms Seen NoDoubleUse
CHECK_DEADLOCK FALSE
