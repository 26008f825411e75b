SPECIFICATION Spec
CONSTANTS
 Devs = {"gs", "link", "pos", "asset"}
 MaxOps = 2
 Fault = "end"
INVARIANTS Conforms Seen 
CHECK_DEADLOCK FALSE
