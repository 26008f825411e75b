SPECIFICATION Spec
CONSTANTS
 Lst = 5
 Samps = {1, 2, 3}
 Vis <- VisDef
INVARIANTS Conforms NoLoss Emit
CHECK_DEADLOCK FALSE
