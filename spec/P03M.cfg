SPECIFICATION Spec
CONSTANTS MaxD = 3 MaxCalls = 3
INVARIANTS Conforms Group Emit
CHECK_DEADLOCK FALSE
