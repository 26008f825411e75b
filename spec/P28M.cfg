SPECIFICATION Spec
CONSTANTS
 Shapes = {"bound", "low", "mid", "high"}
 Legs = {"in", "out"}
 Turns = {"pro", "retro"}
 Targets = {"same", "near", "far", "ltof"}
 Max = 10
 Slip = "none"
INVARIANTS Conforms Seen Ends Emit2
CHECK_DEADLOCK FALSE
