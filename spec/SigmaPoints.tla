---------------------------- MODULE SigmaPoints ----------------------------
(***************************************************************************)
(* The unscented transform: 2D+1 sigma points of N(m, S) with kappa =      *)
(* 1.05 D, spread sqrt(D + kappa) along the columns of the lower Cholesky  *)
(* factor, and their weights. A covariance without Cholesky factor is      *)
(* replaced by its diagonal.                                               *)
(***************************************************************************)
EXTENDS HPReal

Kappa(D)  == RMul("1.05", D)
Spread2(D) == RAdd(D, Kappa(D))                  \* D + kappa
SigmaFactor(S) ==
  LET D == Len(S)
      L == Cholesky(MScale(Spread2(D), S))
  IN IF L # <<>> THEN L ELSE MDiag([i \in 1..D |-> RSqrt(RMul(Spread2(D), S[i][i]))])
SigmaPts(m, S) ==
  LET C == TLCEval(MT(SigmaFactor(S)))             \* rows: columns of the factor
      D == Len(m)
  IN TLCEval([p \in 1..(2 * D + 1) |->
       IF p = 1 THEN m
       ELSE IF p <= D + 1 THEN VAdd(m, C[p - 1]) ELSE VSub(m, C[p - 1 - D])])
SigmaW(D) == [p \in 1..(2 * D + 1) |->
  IF p = 1 THEN RDiv(Kappa(D), Spread2(D)) ELSE RDiv(1, RMul(2, Spread2(D)))]

(* Weighted mean and covariance of the values ys (a sequence of vectors).  *)
WMean(w, ys) == TLCEval([i \in 1..Len(ys[1]) |-> RDot(w, [p \in 1..Len(ys) |-> ys[p][i]])])
WCov(w, ys, mu) ==
  LET z == TLCEval([p \in 1..Len(ys) |-> VSub(ys[p], mu)])
  IN [i \in 1..Len(mu) |-> [j \in 1..Len(mu) |->
       RSum([p \in 1..Len(ys) |-> RMul(w[p], RMul(z[p][i], z[p][j]))])]]
=============================================================================
