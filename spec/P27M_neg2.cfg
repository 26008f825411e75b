SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"tu", "A", "B"}
 Slip = "nulls"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
