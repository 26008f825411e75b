SPECIFICATION Spec
CONSTANTS Horizon = 9 MaxStep = 2 MaxN = 3
INVARIANTS Conforms Emit
CHECK_DEADLOCK FALSE
