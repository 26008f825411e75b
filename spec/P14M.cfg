SPECIFICATION Spec
CONSTANTS
 End = 4
 Hands = {"E", "G", "O"}
 Samps = {1, 2}
INVARIANTS Conforms Emit
CHECK_DEADLOCK FALSE
