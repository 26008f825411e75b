SPECIFICATION Spec
CONSTANTS
 Laws = {"rug", "klu"}
 Stats = {"none", "met", "low", "high"}
 Steps = 3
 Slip = "inhibit"
INVARIANTS Conforms NeverInDark InhibitedStays Seen 
CHECK_DEADLOCK FALSE
