SPECIFICATION Spec
CONSTANTS Slots = 5
INVARIANTS Conforms Tiles NoDisabled Emit
CHECK_DEADLOCK FALSE
