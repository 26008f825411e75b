SPECIFICATION Spec
CONSTANTS
 Models = {"pm", "gf", "st", "srp", "drag"}
 Frames = {"eme", "ecl", "moon"}
 Ats = {"earth", "moon"}
 Lits = {"any", "light", "shadow"}
 Slip = "no"
INVARIANTS Conforms Seen Emit
CHECK_DEADLOCK FALSE
