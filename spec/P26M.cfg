SPECIFICATION Spec
CONSTANTS
 Kinds = {"none", "white", "gm", "both"}
 Eps = {"fwd", "same", "back", "gap"}
 Devs = {"none", "gs", "link", "pos"}
 N = 3
 Slip = "no"
INVARIANTS Conforms Seen NoDoubleUse Emit
CHECK_DEADLOCK FALSE
