SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxIt = 2
 Slip = "jump"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
