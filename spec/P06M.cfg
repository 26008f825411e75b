SPECIFICATION Spec
CONSTANTS Tm = 2 MaxLen = 2 MaxOps = 3
INVARIANTS Conforms Ordered EmitAll
CHECK_DEADLOCK FALSE
