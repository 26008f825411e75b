SPECIFICATION Spec
CONSTANTS MaxD = 3 MaxStep = 3 MaxCalls = 2
INVARIANTS Conforms StepPositive Emit
CHECK_DEADLOCK FALSE
