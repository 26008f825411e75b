SPECIFICATION Spec
CONSTANTS
 Ops = {"vec", "add9", "prop", "cr", "isp", "total", "tx", "enable", "unset", "mode"}
 Depth = 2
 Slip = "keep"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
