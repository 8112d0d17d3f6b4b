----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* Gaussian observations y_n = H x(t_n) + noise(R): the expected negative  *)
(* log-likelihood of one observation under x ~ N(m, S), and its            *)
(* derivatives; and the Kullback-Leibler divergence of Gaussians.          *)
(***************************************************************************)
EXTENDS HPReal
(* iR = R^-1, ldR = log det R                                              *)
ObsEnergy(y, m, S, H, iR, ldR) ==
  LET r == VSub(y, MatVec(H, m)) IN
  RHalf(RSum(<<RDot(r, MatVec(iR, r)), TrMul(iR, MatMul(H, MatMul(S, MT(H)))),
               RMul(Len(y), LOG2PI), ldR>>))
ObsMag(y, m, S, H, iR, ldR) ==
  LET r == RAdd(VMaxAbs(y), RMul(Len(m), RMul(MMaxAbs(H), VMaxAbs(m))))
      D == Len(y) * Len(y) IN
  RSum(<<RMul(D, RMul(MMaxAbs(iR), RSq(r))),
         RMul(D * Len(m) * Len(m), RMul(MMaxAbs(iR), RMul(RSq(MMaxAbs(H)), MMaxAbs(S)))),
         Len(y), RAbs(ldR)>>)
ObsDm(y, m, H, iR) == VScale("-1", MatVec(MT(H), MatVec(iR, VSub(y, MatVec(H, m)))))
ObsDs(H, iR)       == MScale("0.5", MatMul(MT(H), MatMul(iR, H)))

(* KL( N(m, s) || N(mu, tau) ) with it = tau^-1.                           *)
KL(m, s, mu, it, ldtau, lds) ==
  LET z == VSub(m, mu) IN
  RHalf(RSum(<<ldtau, RNeg(lds), TrMul(it, MAdd(s, Outer(z, z))), -Len(m)>>))
KLMag(m, s, mu, it, ldtau, lds) ==
  LET z == RAdd(VMaxAbs(m), VMaxAbs(mu))
      D == Len(m) * Len(m) IN
  RSum(<<RAbs(ldtau), RAbs(lds), Len(m), RMul(D, RMul(MMaxAbs(it), RAdd(MMaxAbs(s), RSq(z))))>>)
KLDm(m, mu, it) == MatVec(it, VSub(m, mu))
KLDs(it, is)    == MScale("0.5", MSub(it, is))
=============================================================================
