SPECIFICATION Spec
CONSTANTS
 Models = {"pm", "gf", "st", "srp", "drag"}
 Frames = {"eme", "ecl", "moon"}
 Ats = {"earth", "moon"}
 Lits = {"any", "light", "shadow"}
 Slip = "over"
INVARIANTS Conforms Seen
CHECK_DEADLOCK FALSE
