CONSTANTS MaxLevel = 1
 Shape = "edge"
 Mid <- PMid
INIT Init
NEXT Next
INVARIANTS EightTimes Tetra Eighths Conform SameBoundary
CHECK_DEADLOCK FALSE
