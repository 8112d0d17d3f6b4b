----------------------------- MODULE MomentODE -----------------------------
(***************************************************************************)
(* The moment equations of the Gaussian process approximation              *)
(*     dm/dt = -A m + b        dS/dt = -A S - S A' + Sigma                 *)
(* and their adjoint equations                                             *)
(*     dlam/dt = -dE/dm + A' lam        dPsi/dt = -dE/dS + Psi A + A' Psi  *)
(* and one step of the explicit Runge-Kutta schemes that VGPA offers. A    *)
(* one dimensional problem is the case of 1-vectors and 1x1 matrices.      *)
(***************************************************************************)
EXTENDS HPReal

FwdMean(m, A, b)    == VSub(b, MatVec(A, m))
FwdCov(S, A, Q)     == MSub(Q, MAdd(MatMul(A, S), MatMul(S, MT(A))))
BwdMean(l, A, dEdm) == VSub(MatVec(MT(A), l), dEdm)
BwdCov(P, A, dEdS)  == MSub(MAdd(MatMul(P, A), MatMul(MT(A), P)), dEdS)

(* Explicit schemes in which stage i starts from stage i-1 only: nodes c,  *)
(* stage coefficients a and weights w.                                     *)
Tableau ==
  [ euler |-> [c |-> <<"0">>,               a |-> <<"0">>,               w |-> <<"1">>],
    heun  |-> [c |-> <<"0", "1">>,          a |-> <<"0", "1">>,          w |-> <<"0.5", "0.5">>],
    rk2   |-> [c |-> <<"0", "0.5">>,        a |-> <<"0", "0.5">>,        w |-> <<"0", "1">>],
    rk4   |-> [c |-> <<"0", "0.5", "0.5", "1">>,
               a |-> <<"0", "0.5", "0.5", "1">>,
               w |-> <<RDiv(1, 6), RDiv(1, 3), RDiv(1, 3), RDiv(1, 6)>>] ]
Schemes == DOMAIN Tableau

(* The value at node c of a coefficient known at both ends of the step.    *)
VAt(c, u0, u1) == IF c = "0" THEN u0 ELSE IF c = "1" THEN u1 ELSE VScale("0.5", VAdd(u0, u1))
MAt(c, A0, A1) == IF c = "0" THEN A0 ELSE IF c = "1" THEN A1 ELSE MScale("0.5", MAdd(A0, A1))

(* One step of length h (negative when integrating backwards) from y, with *)
(* right-hand side F(state, node), for vectors and for matrices.           *)
RECURSIVE VStages(_, _, _, _, _)
VStages(F(_, _), y, h, tab, ks) ==
  IF Len(ks) = Len(tab.c) THEN ks
  ELSE LET i == Len(ks) + 1
           z == IF i = 1 THEN y ELSE VAdd(y, VScale(RMul(h, tab.a[i]), ks[i - 1]))
       IN VStages(F, y, h, tab, Append(ks, F(z, tab.c[i])))
VStep(F(_, _), y, h, tab) ==
  LET ks == VStages(F, y, h, tab, <<>>) IN
  [j \in 1..Len(y) |->
     RAdd(y[j], RMul(h, RDot(tab.w, [i \in 1..Len(ks) |-> ks[i][j]])))]

RECURSIVE MStages(_, _, _, _, _)
MStages(F(_, _), y, h, tab, ks) ==
  IF Len(ks) = Len(tab.c) THEN ks
  ELSE LET i == Len(ks) + 1
           z == IF i = 1 THEN y ELSE MAdd(y, MScale(RMul(h, tab.a[i]), ks[i - 1]))
       IN MStages(F, y, h, tab, Append(ks, F(z, tab.c[i])))
MStep(F(_, _), y, h, tab) ==
  LET ks == MStages(F, y, h, tab, <<>>) IN
  [r \in 1..Len(y) |-> [j \in 1..Len(y) |->
     RAdd(y[r][j], RMul(h, RDot(tab.w, [i \in 1..Len(ks) |-> ks[i][r][j]])))]]

(* One forward step from grid point k to k+1: coefficients (A0, b0) and    *)
(* (A1, b1), noise Q.                                                      *)
FwdMeanStep(scheme, m, h, A0, A1, b0, b1) ==
  LET F(z, c) == FwdMean(z, MAt(c, A0, A1), VAt(c, b0, b1))
  IN VStep(F, m, h, Tableau[scheme])
FwdCovStep(scheme, S, h, A0, A1, Q) ==
  LET F(z, c) == FwdCov(z, MAt(c, A0, A1), Q)
  IN MStep(F, S, h, Tableau[scheme])

(* One backward step from grid point t (A0, dE0) to t-1 (A1, dE1), before  *)
(* the jump at t-1 is added.                                               *)
BwdMeanStep(scheme, l, h, A0, A1, dE0, dE1) ==
  LET F(z, c) == BwdMean(z, MAt(c, A0, A1), VAt(c, dE0, dE1))
  IN VStep(F, l, RNeg(h), Tableau[scheme])
BwdCovStep(scheme, P, h, A0, A1, dE0, dE1) ==
  LET F(z, c) == BwdCov(z, MAt(c, A0, A1), MAt(c, dE0, dE1))
  IN MStep(F, P, RNeg(h), Tableau[scheme])
=============================================================================
