SPECIFICATION TSpec
CONSTANTS
  Begin <- PBegin
  Fails <- PFails
  Apply <- PApply
POSTCONDITION TPost
CHECK_DEADLOCK FALSE
