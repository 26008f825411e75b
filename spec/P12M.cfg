SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 1
INVARIANTS Conforms NoLoss Partition Emit
CHECK_DEADLOCK FALSE
