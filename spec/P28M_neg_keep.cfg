SPECIFICATION Spec
CONSTANTS
 Shapes = {"bound", "low", "mid", "high"}
 Legs = {"in", "out"}
 Turns = {"pro", "retro"}
 Targets = {"same", "near", "far", "ltof"}
 Max = 10
 Slip = "keep"
INVARIANTS Conforms Seen Ends
CHECK_DEADLOCK FALSE
