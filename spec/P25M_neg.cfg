SPECIFICATION Spec
CONSTANTS
 Kinds = {"A", "S", "L", "N0", "N1", "N2"}
 Cols = {"no", "opp", "same"}
 Ups = {0, 1}
 Tofs = {"neg", "zero", "short", "mid", "long", "longer"}
 Flip = TRUE
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
