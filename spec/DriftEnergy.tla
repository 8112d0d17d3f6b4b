---------------------------- MODULE DriftEnergy ----------------------------
(***************************************************************************)
(* The drift energy of the variational approximation. With g(x) = f(x) +   *)
(* A x - b (model drift minus linear drift) and x ~ N(m, S) the density is *)
(*      e(m, S) = 1/2 E[g(x)' W g(x)],       W = inverse system noise.     *)
(*                                                                         *)
(* Polynomial drifts in one dimension (double well, Ornstein-Uhlenbeck)    *)
(* use the raw moments; quadratic drifts in several dimensions (Lorenz 63  *)
(* and 96) use the following identities for quadratic forms               *)
(*      g_i = a_i + B_i'y + y'Q_i y,   y = x - m ~ N(0, S):                *)
(*  E[g_i]     = a_i + tr(Q_i S)                                           *)
(*  E[g_i g_j] = E[g_i]E[g_j] + B_i'S B_j + 2 tr(Q_i S Q_j S)              *)
(*  d/dm E[g_i g_j] = E[g_i]B_j + E[g_j]B_i + 2 Q_j S B_i + 2 Q_i S B_j    *)
(*  d/dS E[g_i g_j] = sym(B_i B_j') + 2(Q_i S Q_j + Q_j S Q_i)             *)
(*                    + E[g_i] Q_j + E[g_j] Q_i                            *)
(* (Bonnet's and Price's theorems; matrix derivative in the convention in  *)
(* which the differential is the trace of derivative times dS).            *)
(***************************************************************************)
EXTENDS GaussMoments, SequencesExt

(* -------- one dimension: f = polynomial with coefficients p ------------ *)
DriftPoly(model, theta) ==
  IF model = "DW" THEN <<"0", RMul(4, theta), "0", "-4">>    \* 4x(theta - x^2)
  ELSE <<"0", RNeg(theta)>>                                 \* -theta x
DriftPolyTheta(model) == IF model = "DW" THEN <<"0", "4">> ELSE <<"0", "-1">>
(* g = f + A x - b                                                         *)
GapPoly(p, A, b) == [i \in 1..Len(p) |-> IF i = 1 THEN RSub(p[1], b)
                                         ELSE IF i = 2 THEN RAdd(p[2], A) ELSE p[i]]
(* Magnitude of the terms of g: |f| + |A x| + |b|.                         *)
GapMag(p, A, b)  == [i \in 1..Len(p) |-> IF i = 1 THEN RAdd(RAbs(p[1]), RAbs(b))
                                         ELSE IF i = 2 THEN RAdd(RAbs(p[2]), RAbs(A)) ELSE RAbs(p[i])]

(* -------- several dimensions: f_i = c_i + L_i'x + x'Q_i x --------------- *)
Zero3(d) == [i \in 1..d |-> MZero(d)]
SymAt(d, i, j, v) ==             \* v/2 at (i, j) and at (j, i)
  [r \in 1..d |-> [c \in 1..d |->
     IF r = i /\ c = j THEN IF i = j THEN v ELSE RHalf(v)
     ELSE IF r = j /\ c = i THEN RHalf(v) ELSE "0"]]
Wrap(d, i) == ((i - 1 + 2 * d) % d) + 1

DriftQuad(model, theta, d) == TLCEval(
  IF model = "L63"
  THEN [c |-> VZero(3),
        L |-> << <<RNeg(theta[1]), theta[1], "0">>,
                 <<theta[2], "-1", "0">>,
                 <<"0", "0", RNeg(theta[3])>> >>,
        Q |-> << MZero(3), SymAt(3, 1, 3, "-1"), SymAt(3, 1, 2, "1") >>]
  ELSE [c |-> [i \in 1..d |-> theta[IF Len(theta) = 1 THEN 1 ELSE i]],   \* one forcing, or one for each component
        L |-> MScale("-1", MEye(d)),
        Q |-> [i \in 1..d |-> MAdd(SymAt(d, Wrap(d, i + 1), Wrap(d, i - 1), "1"),
                                   SymAt(d, Wrap(d, i - 2), Wrap(d, i - 1), "-1"))]])

(* The averages of the Lorenz-96 drift and of its Jacobian, written out (to *)
(* decide large systems; DriftEnergyTest compares them with the general    *)
(* form): <x_j x_k> = m_j m_k + S_jk.                                      *)
L96Mean(theta, m, S) ==
  LET d == Len(m)
      E(j, k) == RAdd(RMul(m[j], m[k]), S[j][k])
  IN [i \in 1..d |-> RSum(<<E(Wrap(d, i + 1), Wrap(d, i - 1)), RNeg(E(Wrap(d, i - 2), Wrap(d, i - 1))),
                            RNeg(m[i]), theta[IF Len(theta) = 1 THEN 1 ELSE i]>>)]
L96Jac(m) ==
  LET d == Len(m)
  IN [i \in 1..d |-> [j \in 1..d |->
       IF j = i THEN "-1" ELSE IF j = Wrap(d, i + 1) THEN m[Wrap(d, i - 1)]
       ELSE IF j = Wrap(d, i - 2) THEN RNeg(m[Wrap(d, i - 1)])
       ELSE IF j = Wrap(d, i - 1) THEN RSub(m[Wrap(d, i + 1)], m[Wrap(d, i - 2)]) ELSE "0"]]

QuadAt(q, x) == TLCEval([i \in 1..Len(x) |->           \* f(x)
  RSum(<<q.c[i], RDot(q.L[i], x), RDot(x, MatVec(q.Q[i], x))>>)])
(* Value, gradient and half Hessian of g around m.                         *)
GapQuad(q, A, b, m) ==
  [a |-> VSub(VAdd(QuadAt(q, m), MatVec(A, m)), b),
   B |-> TLCEval([i \in 1..Len(m) |-> VAdd(VAdd(q.L[i], A[i]), VScale(2, MatVec(q.Q[i], m)))]),
   Q |-> q.Q]
EGap(g, S) == TLCEval([i \in 1..Len(g.a) |-> RAdd(g.a[i], TrMul(g.Q[i], S))])
EJac(q, m) == TLCEval([i \in 1..Len(m) |-> VAdd(q.L[i], VScale(2, MatVec(q.Q[i], m)))])

IsZero(A) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : REq(A[i][j], 0)
EGapPair(g, e, S, i, j) ==
  RSum(<<RMul(e[i], e[j]), RDot(g.B[i], MatVec(S, g.B[j])),
         RMul(2, TrMul(MatMul(g.Q[i], S), MatMul(g.Q[j], S)))>>)
EGapPairDm(g, e, S, i, j) ==
  VAdd(VAdd(VScale(e[i], g.B[j]), VScale(e[j], g.B[i])),
       VScale(2, VAdd(MatVec(g.Q[j], MatVec(S, g.B[i])), MatVec(g.Q[i], MatVec(S, g.B[j])))))
EGapPairDs(g, e, S, i, j) ==
  LET o == Outer(g.B[i], g.B[j])
      qsq == MatMul(g.Q[i], MatMul(S, g.Q[j]))
  IN MAdd(MAdd(MScale("0.5", MAdd(o, MT(o))), MScale(2, MAdd(qsq, MT(qsq)))),
          MAdd(MScale(e[i], g.Q[j]), MScale(e[j], g.Q[i])))

(* Density and sensitivities for the weight matrix W; pairs with zero      *)
(* weight do not contribute.                                               *)
Pairs(W) == TLCEval(SetToSeq({p \in (DOMAIN W) \X (DOMAIN W) : ~REq(W[p[1]][p[2]], 0)}))
VSum(us, n) == LET v == TLCEval(us) IN
  TLCEval([i \in 1..n |-> RSum([k \in 1..Len(v) |-> v[k][i]])])
MSum(As, n) == LET v == TLCEval(As) IN
  TLCEval([i \in 1..n |-> VSum([k \in 1..Len(v) |-> v[k][i]], n)])
QuadDensity(g, W, S) ==
  LET e == EGap(g, S)
      P == Pairs(W)
  IN RHalf(RSum([k \in 1..Len(P) |->
       RMul(W[P[k][1]][P[k][2]], EGapPair(g, e, S, P[k][1], P[k][2]))]))
QuadDensityDm(g, W, S) ==
  LET e == EGap(g, S)
      P == Pairs(W)
  IN VScale("0.5", VSum([k \in 1..Len(P) |->
       VScale(W[P[k][1]][P[k][2]], EGapPairDm(g, e, S, P[k][1], P[k][2]))], Len(g.a)))
QuadDensityDs(g, W, S) ==
  LET e == EGap(g, S)
      P == Pairs(W)
  IN MScale("0.5", MSum([k \in 1..Len(P) |->
       MScale(W[P[k][1]][P[k][2]], EGapPairDs(g, e, S, P[k][1], P[k][2]))], Len(g.a)))

(* Derivative with respect to the drift parameters: W E[g_i h] with the    *)
(* linear h = df_i/dtheta = h0 + h1'x.                                     *)
L63Theta == << <<"-1", "1", "0">>, <<"1", "0", "0">>, <<"0", "0", "-1">> >>
EGapLin(g, e, S, m, i, h1) ==
  RAdd(RMul(e[i], RDot(h1, m)), RDot(g.B[i], MatVec(S, h1)))

(* Bound on the size of the terms of g_i and of their derivatives, for the *)
(* tolerance only.                                                         *)
Radius(m, S) == TLCEval([j \in 1..Len(m) |-> RAdd(RAbs(m[j]), RSqrt(RAbs(S[j][j])))])
AbsV(v) == TLCEval([j \in 1..Len(v) |-> RAbs(v[j])])
AbsM(A) == TLCEval([i \in 1..Len(A) |-> AbsV(A[i])])
MagQuad(q, A, b, m, S) ==
  LET r == Radius(m, S)
      lin == MAdd(AbsM(q.L), AbsM(A))
  IN TLCEval([v |-> [i \in 1..Len(m) |-> RSum(<<RAbs(q.c[i]), RAbs(b[i]), RDot(lin[i], r),
                                        RDot(r, MatVec(AbsM(q.Q[i]), r))>>)],
      g |-> [i \in 1..Len(m) |-> VAdd(lin[i], VScale(2, MatVec(AbsM(q.Q[i]), r)))]])

(* -------- trapezoidal rule ---------------------------------------------- *)
TrapWeight(k, n, dt) == IF k = 1 \/ k = n THEN RHalf(dt) ELSE dt
=============================================================================
