SPECIFICATION Spec
CONSTANTS
 Ops = {"vec", "add9", "prop", "cr", "isp", "total", "tx", "enable", "unset", "mode"}
 Depth = 2
 Slip = "none"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
