SPECIFICATION Spec
CONSTANTS
 Devs = {"gs", "link", "pos", "asset"}
 MaxOps = 2
 Fault = "none"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
