SPECIFICATION Spec
CONSTANTS
 NOpt = 4
 Styles = {"inline", "mask"}
 Damages = {"none", "cut", "more", "value"}
 Mut = "swap"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
