SPECIFICATION Spec
CONSTANTS Slots = 4
INVARIANTS Conforms Tiles NoDisabled Emit
CHECK_DEADLOCK FALSE
