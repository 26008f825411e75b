SPECIFICATION Spec
CONSTANTS
 Ts = {1, 2}
 Trks = {"A", "B"}
 Types = {"Range", "Doppler", "Azimuth"}
INVARIANTS Conforms NoNulls Emit
CHECK_DEADLOCK FALSE
