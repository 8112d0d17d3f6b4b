SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1, 2}
 Depth = 4
 NewKinds = {"scalar", "vector", "full", "indefinite"}
 SetKinds = {"full", "diagonal", "indefinite", "negative", "shape"}
 ThetaKinds = {"good", "bad"}
 Good = {"scalar", "vector", "full", "diagonal", "good"}
INVARIANTS InverseInStep LastWins Emit
