SPECIFICATION Spec
CONSTANTS
  Sims = {1, 2, 3}
  Files = {1, 2}
  FileOf <- MCFileOf
  Depth = 4
INVARIANTS LastSaveWins OnlyOwnFile LoadsAgree NothingFromNothing Emit
CHECK_DEADLOCK FALSE
