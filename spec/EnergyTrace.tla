---------------------------- MODULE EnergyTrace ----------------------------
(***************************************************************************)
(* C04, C05, C06. One transition per grid point: the recorded expectations and  *)
(* sensitivities of that point; the state accumulates the integrals over   *)
(* the window, which are compared at the end.                              *)
(***************************************************************************)
EXTENDS DriftPoints, Trace
CONSTANTS Value, Sens     \* check energy and averages (C04), sensitivities (C05), or both (C06)

VARIABLES tr, k, acc, bad,
          W, q       \* inverse system noise and quadratic drift of the trace
vars == <<tr, k, acc, bad, W, q>>
T == Traces[tr]
TOL == "1E-9"
d == T.dim
n == T.n

Shapes ==
  /\ T.outcome = "ok"
  /\ RAllNum(<<T.E, T.Ef, T.Edf, T.dm, T.ds, T.dth, T.dsig>>)
  /\ T.shapes = T.want_shapes
  /\ \A s \in {T.Ef} \cup (IF T.averages THEN {} ELSE {T.dm}) : IsMat(s, n, d)
  /\ \A s \in {T.Edf} \cup (IF T.averages THEN {} ELSE {T.ds}) : DOMAIN s = 1..n /\ \A i \in 1..n : IsMat(s[i], d, d)

dt == RAbs(RSub(T.tk[2], T.tk[1]))
Diagonal == \A i, j \in 1..d : i # j => REq(T.sigma[i][j], 0)

Point(i) == EnergyPoint(T.model, T.theta, W, q, T.A[i], T.b[i], T.m[i], T.S[i])

Nothing == [e |-> "0", emag |-> "0", ed |-> "0", th |-> VZero(Len(T.theta_out)), thmag |-> "0",
            g2 |-> VZero(d), g2mag |-> "0"]

Init == tr \in 1..NTraces /\ k = 0 /\ acc = <<>> /\ bad = {} /\ W = <<>> /\ q = <<>>

Malformed ==
  /\ k = 0 /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome}
  /\ k' = -1 /\ UNCHANGED <<tr, acc, W, q>>
  /\ Verdict(tr, 1, bad')
Start ==
  /\ k = 0 /\ Shapes
  /\ k' = 1 /\ acc' = Nothing /\ UNCHANGED tr 
  /\ W' = (IF T.averages THEN <<>> ELSE TLCEval(SpdInv(T.sigma)))
  /\ q' = (IF T.averages THEN <<>> ELSE TLCEval(ModelQuad(T.model, T.theta, d)))
  /\ bad' = Failed([inputs_kept |-> T.inputs_kept])

(* A large system: the averages only.                                      *)
Averages ==
  /\ k > 0 /\ k <= n /\ T.averages
  /\ \E x \in {AveragesPoint(T.theta, T.m[k], T.S[k])} :
        bad' = bad \cup Failed(
            [avg_drift |-> VClose(T.Ef[k], x.f, x.fmag, TOL), avg_jac |-> MClose(T.Edf[k], x.df, x.dfmag, TOL)])
  /\ k' = (IF k = n THEN -1 ELSE k + 1) /\ UNCHANGED <<tr, acc, W, q>>
  /\ k = n => Verdict(tr, n, bad')

GridPoint ==
  /\ k > 0 /\ k <= n /\ ~T.averages
  /\ \E x \in {Point(k)}, w \in {TrapWeight(k, n, dt)} :   \* evaluated once
        /\ bad' = bad \cup Failed(
            [avg_drift |-> Value => VClose(T.Ef[k], x.f, x.fmag, TOL),
             avg_jac   |-> Value => MClose(T.Edf[k], x.df, x.dfmag, TOL),
             d_mean    |-> Sens => VClose(T.dm[k], x.dm, x.dmmag, TOL),
             d_cov     |-> Sens => MClose(T.ds[k], x.ds, x.dsmag, TOL)])
        /\ acc' = [e     |-> RAdd(acc.e, RMul(w, x.e)),     emag  |-> RAdd(acc.emag, RMul(w, x.emag)),
                   ed    |-> RAdd(acc.ed, RMul(w, x.ed)),
                   th    |-> VAdd(acc.th, VScale(w, x.th)), thmag |-> RAdd(acc.thmag, RMul(w, x.thmag)),
                   g2    |-> VAdd(acc.g2, VScale(w, x.g2)), g2mag |-> RAdd(acc.g2mag, RMul(w, x.g2mag))]
  /\ k' = k + 1 /\ UNCHANGED <<tr, W, q>>

(* Derivative of 1/2 sum_i W_ii G_i with respect to the noise for the      *)
(* integrated squared gaps G.                                              *)
DSigma == MScale("-0.5", MatMul(W, MatMul(MDiag(acc.g2), W)))

(* Correlated noise: the sensitivities belong to the energy that is        *)
(* reported (a finding of C04 if that uses the diagonal of W); with the    *)
(* energy of all of W they are not modelled.                               *)
Modelled == Diagonal \/ Close(T.E, acc.ed, acc.emag, TOL)
Finish ==
  /\ k = n + 1
  /\ bad' = (IF Modelled THEN bad ELSE bad \ {"d_mean", "d_cov"}) \cup Failed(
       [energy      |-> (Value /\ (Diagonal \/ T.model # "L96")) => Close(T.E, acc.e, acc.emag, TOL),
        energy_diag |-> Value => \/ Close(T.E, acc.e, acc.emag, TOL)
                                 \/ Close(T.E, acc.ed, acc.emag, TOL),
        d_theta     |-> (Sens /\ Modelled) => VClose(T.dth, acc.th, acc.thmag, TOL),
        d_sigma     |-> (Sens /\ Modelled) =>
                          MClose(T.dsig, DSigma, RMul(RSq(MMaxAbs(W)), acc.g2mag), TOL)])
  /\ k' = -1 /\ UNCHANGED <<tr, acc, W, q>>
  /\ Verdict(tr, n, bad')

Next == Malformed \/ Start \/ Averages \/ GridPoint \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
