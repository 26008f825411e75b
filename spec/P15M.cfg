SPECIFICATION Spec
CONSTANTS
 Ts = {1, 2, 3}
 Depth = 1
INVARIANTS InOrder NothingNew Complement Idempotent Emit
CHECK_DEADLOCK FALSE
