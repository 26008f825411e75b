SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxIt = 3
 Slip = "none"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
