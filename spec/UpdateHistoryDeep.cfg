SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Points = {1, 2}
  Depth = 4
  Shares = {TRUE, FALSE}
INVARIANTS LastWins SharedAgree
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
