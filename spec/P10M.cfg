SPECIFICATION Spec
CONSTANTS
 N = 4
 Ws = {1, 4}
 Thr = 3
INVARIANTS Optimal NeverRejectsWithoutCriterion Conforms Emit
PROPERTY Informed
CHECK_DEADLOCK FALSE
