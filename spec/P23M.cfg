SPECIFICATION Spec
CONSTANTS
 Laws = {"rug", "klu"}
 Stats = {"none", "met", "low", "high"}
 Steps = 3
 Slip = "no"
INVARIANTS Conforms NeverInDark InhibitedStays Seen Emit
CHECK_DEADLOCK FALSE
