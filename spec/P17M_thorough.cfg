SPECIFICATION Spec
CONSTANTS
 MaxN = 5
 MaxSkip = 2
 MaxW = 4
INVARIANTS Conforms Unsorted NoLoss Emit
CHECK_DEADLOCK FALSE
