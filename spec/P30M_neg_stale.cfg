SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxIt = 2
 Slip = "stale"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
