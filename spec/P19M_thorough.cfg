SPECIFICATION Spec
CONSTANTS
 Targets <- TDef
 Bounds <- BDef
 Guesses <- GDef
 Steps = {1, 2, 3}
 MaxIt = 6
 Mode = "total"
INVARIANTS Conforms InBounds Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
