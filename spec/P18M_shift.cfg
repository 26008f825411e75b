SPECIFICATION Spec
CONSTANTS
 Slots = {"x", "y", "z", "vx", "vy", "vz", "cr", "cd", "pm"}
 Shift = 1
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
