CONSTANTS
  Cells = 3
  Ranks = 3
  Groups = 2
  Works = {1, 3}
  Sweeps = 2
  Protos = {1, 2}
  Modes = {"eager", "rdv"}
  Variants = {""}
  Edges = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Good Agreed
CHECK_DEADLOCK TRUE
