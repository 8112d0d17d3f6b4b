------------------------------- MODULE VarGP -------------------------------
(***************************************************************************)
(* C10. One evaluation of the variational free energy and its gradient as  *)
(* a transition system over the phases                                     *)
(*   forward sweep -> drift energy -> observations -> total                *)
(*                 -> backward sweep -> gradient                           *)
(* with one transition per grid point (or observation). The state carries  *)
(* the sensitivities that the earlier phases produce and the later ones    *)
(* consume. Recorded evaluations have to be behaviours of it. A trace of   *)
(* kind "refine" compares, on a sequence of finer and finer grids, the     *)
(* gradient with difference quotients of the free energy.                  *)
(***************************************************************************)
EXTENDS DriftPoints, Likelihood, MomentODE, Trace

VARIABLES tr, phase, k, bad,
          W, q,          \* inverse system noise, quadratic drift
          iR, ldR,       \* inverse observation noise, its log-determinant
          F, Fd, mag,    \* free energy so far (full / diagonal weights), magnitude
          pts,           \* per grid point: sensitivities and averages
          l, P           \* multipliers at grid point k
vars == <<tr, phase, k, bad, W, q, iR, ldR, F, Fd, mag, pts, l, P>>

T == Traces[tr]
TOL == "1E-8"
n == T.n
d == T.dim
dt == T.dt
Refine == T.kind = "refine"          \* "system": one evaluation; "run": the stored
                                     \* results of a simulation (RunTrace)

Shapes ==
  /\ T.outcome = "ok"
  /\ RAllNum(<<T.F, T.mt, T.st, T.lam, T.psi, T.Ef, T.Edf, T.ga, T.gb>>)
  /\ T.kind = "run" => RAllNum(<<T.A, T.b, T.Fstart>>)
  /\ T.shapes = T.want_shapes

Init ==
  /\ tr \in 1..NTraces
  /\ phase = "start" /\ k = 0 /\ bad = {}
  /\ W = <<>> /\ q = <<>> /\ iR = <<>> /\ ldR = "0"
  /\ F = "0" /\ Fd = "0" /\ mag = "0" /\ pts = <<>> /\ l = <<>> /\ P = <<>>

Malformed ==
  /\ phase = "start" /\ ~Refine /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome} /\ phase' = "end"
  /\ UNCHANGED <<tr, k, W, q, iR, ldR, F, Fd, mag, pts, l, P>>
  /\ Verdict(tr, 1, bad')

Start ==                        \* includes the prior term
  /\ phase = "start" /\ ~Refine /\ Shapes
  /\ W' = TLCEval(SpdInv(T.sigma)) /\ q' = TLCEval(ModelQuad(T.model, T.theta, d))
  /\ iR' = TLCEval(SpdInv(T.R)) /\ ldR' = LogDet(T.R)
  /\ \E it \in {SpdInv(T.tau0)}, lt \in {LogDet(T.tau0)}, ls \in {LogDet(T.S0)} :
       /\ F' = KL(T.m0, T.S0, T.mu0, it, lt, ls)
       /\ mag' = KLMag(T.m0, T.S0, T.mu0, it, lt, ls)
  /\ Fd' = F'
  /\ bad' = Failed([initial |-> /\ VClose(T.mt[1], T.m0, "0", "1E-12")
                                /\ MClose(T.st[1], T.S0, "0", "1E-12"),
                    inputs_kept |-> T.inputs_kept])
  /\ phase' = "forward" /\ k' = 1
  /\ UNCHANGED <<tr, pts, l, P>>

Forward ==
  /\ phase = "forward" /\ k < n
  /\ LET sm == RAdd(VMaxAbs(T.mt[k]), RMul(dt, VMaxAbs(T.b[k])))
         sS == RAdd(MMaxAbs(T.st[k]), RMul(dt, MMaxAbs(T.sigma)))
     IN bad' = bad \cup Failed(
       [fwd_mean |-> VClose(T.mt[k+1], FwdMeanStep(T.scheme, T.mt[k], dt, T.A[k], T.A[k+1], T.b[k], T.b[k+1]), sm, TOL),
        fwd_cov  |-> MClose(T.st[k+1], FwdCovStep(T.scheme, T.st[k], dt, T.A[k], T.A[k+1], T.sigma), sS, TOL)])
  /\ k' = k + 1
  /\ UNCHANGED <<tr, phase, W, q, iR, ldR, F, Fd, mag, pts, l, P>>

(* Sensitivities and averages of every grid point; energy accumulates.     *)
Energy ==
  /\ \/ phase = "forward" /\ k = n
     \/ phase = "energy" /\ k < n
  /\ LET i == IF phase = "forward" THEN 1 ELSE k + 1 IN
     \E x \in {EnergyPoint(T.model, T.theta, W, q, T.A[i], T.b[i], T.mt[i], T.st[i])},
        w \in {TrapWeight(i, n, dt)} :
       /\ pts' = Append(pts, [f |-> x.f, df |-> x.df, dm |-> x.dm, ds |-> x.ds,
                              fmag |-> x.fmag, dfmag |-> x.dfmag, dmmag |-> x.dmmag, dsmag |-> x.dsmag])
       /\ F'   = RAdd(F, RMul(w, x.e))
       /\ Fd'  = RAdd(Fd, RMul(w, x.ed))
       /\ mag' = RAdd(mag, RMul(w, x.emag))
       /\ bad' = bad \cup Failed([published |-> /\ VClose(T.Ef[i], x.f, x.fmag, TOL)
                                                /\ MClose(T.Edf[i], x.df, x.dfmag, TOL)])
       /\ k' = i
  /\ phase' = "energy"
  /\ UNCHANGED <<tr, W, q, iR, ldR, l, P>>

ObsOf(i) == {j \in 1..Len(T.times) : T.times[j] = i - 1}
Observe ==
  /\ \/ phase = "energy" /\ k = n
     \/ phase = "observe" /\ k < Len(T.times)
  /\ LET j == IF phase = "energy" THEN 1 ELSE k + 1
         i == T.times[j] + 1
     IN \E e \in {ObsEnergy(T.y[j], T.mt[i], T.st[i], T.H, iR, ldR)} :
          /\ F' = RAdd(F, e) /\ Fd' = RAdd(Fd, e)
          /\ mag' = RAdd(mag, ObsMag(T.y[j], T.mt[i], T.st[i], T.H, iR, ldR))
          /\ k' = j
  /\ phase' = "observe"
  /\ UNCHANGED <<tr, bad, W, q, iR, ldR, pts, l, P>>

JumpM(i) == IF ObsOf(i) = {} THEN VZero(d)
            ELSE ObsDm(T.y[CHOOSE j \in ObsOf(i) : TRUE], T.mt[i], T.H, iR)
JumpS(i) == IF ObsOf(i) = {} THEN MZero(d) ELSE ObsDs(T.H, iR)
ObsScale == RMul(d, RMul(RMul(MMaxAbs(T.H), MMaxAbs(iR)),
                 RSum(<<1, MMaxAbs(T.H), MMaxAbs(T.y), RMul(MMaxAbs(T.H), MMaxAbs(T.mt))>>)))

Total ==
  /\ phase = "observe" /\ k = Len(T.times)
  /\ bad' = bad \cup Failed(
       [free_energy |-> Close(T.F, F, mag, TOL),
        free_energy_diag |-> Close(T.F, F, mag, TOL) \/ Close(T.F, Fd, mag, TOL),
        terminal |-> \E i \in {n} : /\ VClose(T.lam[i], JumpM(i), ObsScale, TOL)
                                    /\ MClose(T.psi[i], JumpS(i), ObsScale, TOL)])
  /\ phase' = "backward" /\ k' = n /\ l' = T.lam[n] /\ P' = T.psi[n]
  /\ UNCHANGED <<tr, W, q, iR, ldR, F, Fd, mag, pts>>

Backward ==
  /\ phase = "backward" /\ k > 1
  /\ LET x == pts[k]
         y == pts[k-1]
         l1 == VAdd(BwdMeanStep(T.scheme, l, dt, T.A[k], T.A[k-1], x.dm, y.dm), JumpM(k-1))
         P1 == MAdd(BwdCovStep(T.scheme, P, dt, T.A[k], T.A[k-1], x.ds, y.ds), JumpS(k-1))
         sl == RSum(<<VMaxAbs(l), RMul(dt, RAdd(x.dmmag, y.dmmag)), ObsScale>>)
         sP == RSum(<<MMaxAbs(P), RMul(dt, RAdd(x.dsmag, y.dsmag)), ObsScale>>)
     IN bad' = bad \cup Failed([bwd_mean |-> VClose(T.lam[k-1], l1, sl, TOL),
                                bwd_cov  |-> MClose(T.psi[k-1], P1, sP, TOL)])
  /\ l' = T.lam[k-1] /\ P' = T.psi[k-1]
  /\ k' = k - 1
  /\ UNCHANGED <<tr, phase, W, q, iR, ldR, F, Fd, mag, pts>>

(* The integrand of the gradient at grid point i.                          *)
DEdb(i) == MatVec(W, VSub(VSub(T.b[i], MatVec(T.A[i], T.mt[i])), pts[i].f))
DEda(i, db) == MSub(MatMul(W, MatMul(MAdd(pts[i].df, T.A[i]), T.st[i])), Outer(db, T.mt[i]))
Gradient ==
  /\ \/ phase = "backward" /\ k = 1
     \/ phase = "gradient" /\ k < n
  /\ LET i == IF phase = "backward" THEN 1 ELSE k + 1
         wA == RMul(d, MMaxAbs(T.A[i]))
         sb == RMul(RMul(d, MMaxAbs(W)), RSum(<<VMaxAbs(T.b[i]), RMul(wA, VMaxAbs(T.mt[i])), pts[i].fmag>>))
         sa == RSum(<<RMul(RMul(d * d, MMaxAbs(W)), RMul(RAdd(pts[i].dfmag, wA), MMaxAbs(T.st[i]))),
                      RMul(sb, VMaxAbs(T.mt[i])), RMul(VMaxAbs(T.lam[i]), VMaxAbs(T.mt[i])),
                      RMul(2 * d, RMul(MMaxAbs(T.psi[i]), MMaxAbs(T.st[i])))>>)
     IN \E db \in {DEdb(i)} :
        /\ bad' = bad \cup Failed(
            [grad_b |-> VClose(T.gb[i], VScale(dt, VAdd(db, T.lam[i])),
                               RMul(dt, RAdd(sb, VMaxAbs(T.lam[i]))), TOL),
             grad_a |-> MClose(T.ga[i],
                          MScale(dt, MSub(MSub(DEda(i, db), Outer(T.lam[i], T.mt[i])),
                                          MScale(2, MatMul(T.psi[i], T.st[i])))),
                          RMul(dt, sa), TOL)])
        /\ k' = i
  /\ phase' = "gradient"
  /\ UNCHANGED <<tr, W, q, iR, ldR, F, Fd, mag, pts, l, P>>

Finish ==
  /\ phase = "gradient" /\ k = n
  /\ phase' = "end"
  /\ Verdict(tr, 4 * n + Len(T.times), bad)
  /\ UNCHANGED <<tr, k, bad, W, q, iR, ldR, F, Fd, mag, pts, l, P>>

(***************************************************************************)
(* Refinement: T.levels is a sequence of evaluations of the same functions *)
(* A(t), b(t) with halved steps; each has the gradient g, directions u and *)
(* the free energies at +eps u and -eps u. With the difference e = quotient *)
(* - g.u, an error of first order in dt means that the extrapolated limit  *)
(* 2 e(dt/2) - e(dt) vanishes: it is small, or (on coarse grids of stiff   *)
(* problems) at least halves from one pair of levels to the next, where    *)
(* only errors of second order in dt are left and a wrong gradient would   *)
(* leave a constant.                                                       *)
(***************************************************************************)
Level(i) == T.levels[i]
Err(i, j) == RSub(RDiv(RSub(Level(i).fp[j], Level(i).fm[j]), RMul(2, T.eps)), RDot(Level(i).g, Level(i).u[j]))
AbsDot(i, j) == RSum([r \in 1..Len(Level(i).g) |-> RAbs(RMul(Level(i).g[r], Level(i).u[j][r]))])
RefineShape ==
  /\ T.outcome = "ok"
  /\ \A i \in DOMAIN T.levels : RAllNum(<<Level(i).fp, Level(i).fm, Level(i).g>>)
  /\ \A i \in DOMAIN T.levels : \A j \in DOMAIN Level(i).u : Len(Level(i).u[j]) = Len(Level(i).g)
Converge ==
  /\ phase = "start" /\ Refine
  /\ IF ~RefineShape THEN bad' = {"malformed: " \o T.outcome}
     ELSE        LET z == Len(T.levels)
                     J == DOMAIN Level(1).u
                 IN \E e0 \in {TLCEval([j \in J |-> IF z > 2 THEN Err(z - 2, j) ELSE "0"])},
                       e1 \in {TLCEval([j \in J |-> Err(z - 1, j)])}, e2 \in {TLCEval([j \in J |-> Err(z, j)])},
                       s \in {TLCEval([j \in J |-> AbsDot(z, j)])} :
                    LET rest(e, f) == RAbs(RSub(RMul(2, f), e))
                    IN bad' = Failed([converges |-> \A j \in J :
                              /\ \/ RLe(rest(e1[j], e2[j]), RMul("0.003", s[j]))
                                 \/ /\ z > 2 /\ RLe(rest(e1[j], e2[j]), RMul("0.03", s[j]))
                                    /\ RLe(RMul(2, rest(e1[j], e2[j])), rest(e0[j], e1[j]))
                              /\ \/ RLe(RAbs(e2[j]), RMul("0.05", s[j]))
                                 \/ /\ z > 2 /\ RLe(RAbs(e2[j]), RMul("0.15", s[j]))
                                    /\ RLe(RMul(3, RAbs(e2[j])), RMul(2, RAbs(e1[j])))])
  /\ phase' = "end"
  /\ UNCHANGED <<tr, k, W, q, iR, ldR, F, Fd, mag, pts, l, P>>
  /\ Verdict(tr, Len(T.levels), bad')

Next == Malformed \/ Start \/ Forward \/ Energy \/ Observe \/ Total \/ Backward \/ Gradient \/ Finish \/ Converge
Spec == Init /\ [][Next]_vars
=============================================================================
