SPECIFICATION Spec
CONSTANTS
 Gaps = {0, 1, 3}
 Kinds = {"one", "two", "flag", "unknown", "blind"}
 MaxLen = 3
 Skip = "late"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
