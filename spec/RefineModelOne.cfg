CONSTANTS MaxLevel = 2
 Shape = "one"
 Mid <- PMid
INIT Init
NEXT Next
INVARIANTS EightTimes Tetra Eighths Conform SameBoundary
CHECK_DEADLOCK FALSE
