CONSTANTS MaxLevel = 1
 Shape = "two"
 Mid <- PMid
INIT Init
NEXT Next
INVARIANTS EightTimes Tetra Eighths Conform SameBoundary
CHECK_DEADLOCK FALSE
