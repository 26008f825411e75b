SPECIFICATION Spec
CONSTANTS
 Devs = {"gs", "link", "pos", "asset"}
 MaxOps = 3
 Fault = "none"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
