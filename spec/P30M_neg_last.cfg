SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxIt = 2
 Slip = "last"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
