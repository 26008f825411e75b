SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"tu", "A", "B"}
 Slip = "window"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
