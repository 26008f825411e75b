SPECIFICATION Spec
CONSTANTS
 N = 3
 Ws = {1, 4}
 Thr = 0
INVARIANTS Optimal NeverRejectsWithoutCriterion Conforms
PROPERTY Informed
CHECK_DEADLOCK FALSE
