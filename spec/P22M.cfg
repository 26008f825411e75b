SPECIFICATION Spec
CONSTANTS
 NOpt = 4
 Styles = {"inline", "mask"}
 Damages = {"none", "cut", "more", "value"}
 Mut = "no"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
