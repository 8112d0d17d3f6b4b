--------------------------- MODULE LikelihoodTest ---------------------------
(* Facts about the specified terms on small exact instances.               *)
EXTENDS Likelihood, TLC
SPD == { << <<a, b>>, <<b, c>> >> : a \in {1, 2, 5}, b \in {-1, 0, 1}, c \in {2, 3} }
V2 == { <<a, b>> : a, b \in {-1, 0, 2} }
(* The divergence is never negative and vanishes exactly for equal moments. *)
ASSUME \A s, t \in SPD : \A z \in V2 :
  LET k == KL(z, s, <<0, 0>>, SpdInv(t), LogDet(t), LogDet(s)) IN
  /\ RLe("-1E-50", k)
  /\ (s = t /\ z = <<0, 0>>) <=> RLe(RAbs(k), "1E-50")
(* Minimal exactly at the prior: the derivatives vanish there.             *)
ASSUME \A s \in SPD : KLDs(SpdInv(s), SpdInv(s)) = MZero(2)
(* Observing a known state exactly: only the normalisation is left.        *)
ASSUME \A R \in SPD, y \in V2 :
  LET e == ObsEnergy(y, y, MZero(2), MEye(2), SpdInv(R), LogDet(R)) IN
  Close(e, RHalf(RAdd(RMul(2, LOG2PI), LogDet(R))), 1, "1E-50")
(* Quadratic in the mean: the central difference is exact.                 *)
ASSUME \A R \in SPD, y, m \in V2 :
  LET iR == SpdInv(R)
      H == << <<1, 2>>, <<0, -1>> >>
      e(x) == ObsEnergy(y, x, MEye(2), H, iR, LogDet(R)) IN
  \A i \in 1..2 :
    Close(ObsDm(y, m, H, iR)[i],
          RHalf(RSub(e(VAdd(m, MEye(2)[i])), e(VSub(m, MEye(2)[i])))), 1, "1E-50")
=============================================================================
