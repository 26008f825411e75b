SPECIFICATION Spec
CONSTANTS
 Targets <- TDef
 Bounds = {0, 1, 3}
 Guesses <- GDef
 Steps = {1, 2}
 MaxIt = 6
 Mode = "total"
INVARIANTS Conforms InBounds Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
