SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Depth = 3
  MaxFaults = 2
INVARIANTS ZeroIffFaultless FilesAreGoodCalls OneFilePerCall Emit
CHECK_DEADLOCK FALSE
