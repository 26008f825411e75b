SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"tu", "A", "B"}
 Slip = "none"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
