SPECIFICATION Spec
CONSTANTS Steps = 4 MaxFuel = 20
INVARIANTS Conforms Conserve Exact Emit
CHECK_DEADLOCK FALSE
