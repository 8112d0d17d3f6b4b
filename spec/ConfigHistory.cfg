SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Depth = 2
  MaxFaults = 2
INVARIANTS ZeroIffFaultless FilesAreGoodCalls OneFilePerCall Emit
CHECK_DEADLOCK FALSE
