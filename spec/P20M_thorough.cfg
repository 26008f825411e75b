SPECIFICATION Spec
CONSTANTS
 Gaps = {0, 1}
 Kinds = {"one", "two", "flag", "unknown", "blind"}
 MaxLen = 4
 Skip = "none"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
