SPECIFICATION Spec
CONSTANTS
  Sims = {1, 2}
  Configs = {1, 2}
  Depth = 6
INVARIANTS DataOfLastSetup ResultOfLastRun Independent Emit
CHECK_DEADLOCK FALSE
