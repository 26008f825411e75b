SPECIFICATION Spec
CONSTANTS
 Devs = {"gs", "link", "pos", "asset"}
 MaxOps = 2
 Fault = "order"
INVARIANTS Conforms Seen 
CHECK_DEADLOCK FALSE
