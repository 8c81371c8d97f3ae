CONSTANTS
  Cells = 3
  Ranks = 3
  Works = {1, 3}
  Sweeps = 2
  Both = TRUE
  Protos = {"tycho", "capsaicin"}
  Modes = {"eager", "rdv"}
  Variants = {""}
  Edges = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Good Order Carried LockStep NotDark
CHECK_DEADLOCK TRUE
