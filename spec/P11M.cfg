SPECIFICATION Spec
CONSTANTS
 N = 4
 K = 2
 Starts = {0, 2, 5}
 Diss = {0, 1, 3}
 Gaps = {0, 1, 3, 4}
INVARIANTS Conforms NoneTooEarly LastWins Emit
CHECK_DEADLOCK FALSE
