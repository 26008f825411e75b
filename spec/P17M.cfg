SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxSkip = 2
 MaxW = 3
INVARIANTS Conforms Unsorted NoLoss Emit
CHECK_DEADLOCK FALSE
