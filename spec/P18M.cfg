SPECIFICATION Spec
CONSTANTS
 Slots = {"x", "y", "z", "vx", "vy", "vz", "cr", "cd", "pm"}
 Shift = 0
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
