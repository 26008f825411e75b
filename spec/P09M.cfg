SPECIFICATION Spec
CONSTANTS
  N = 3
  Gaps = {0, 1, 2, 5}
  Max = 2
INVARIANTS Conforms NoLoss NoDup Emit
CHECK_DEADLOCK FALSE
