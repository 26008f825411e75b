SPECIFICATION Spec
CONSTANTS Steps = 6 MaxFuel = 20
INVARIANTS Conforms Conserve Exact Emit
CHECK_DEADLOCK FALSE
