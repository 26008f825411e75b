SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxIt = 1
 Slip = "short"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
