SPECIFICATION Spec
CONSTANTS Min = 20 Max = 90 Attempts = 3 MaxSteps = 4
INVARIANTS Conforms Bounds Emit
CHECK_DEADLOCK FALSE
