SPECIFICATION Spec
CONSTANTS MaxN = 16 W = 13
INVARIANTS Conforms Window GridOk Emit
CHECK_DEADLOCK FALSE
