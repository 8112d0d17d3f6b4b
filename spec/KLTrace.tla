------------------------------ MODULE KLTrace ------------------------------
(* C09. The recorded prior term and its sensitivities.                     *)
EXTENDS Likelihood, Trace
VARIABLES tr, phase, bad
T == Traces[tr]
TOL == "1E-9"
d == T.dim
Shapes ==
  /\ T.outcome = "ok"
  /\ RAllNum(<<T.kl, T.dm, T.ds>>)
  /\ T.shapes = T.want_shapes
  /\ IsVec(T.dm, d) /\ IsMat(T.ds, d, d)
Init == tr \in 1..NTraces /\ phase = "value" /\ bad = {}
Malformed ==
  /\ phase = "value" /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome} /\ phase' = "end" /\ UNCHANGED tr
  /\ Verdict(tr, 1, bad')
ValueStep ==
  /\ phase = "value" /\ Shapes
  /\ \E it \in {SpdInv(T.tau)}, lt \in {LogDet(T.tau)}, ls \in {LogDet(T.s)} :
     \E mag \in {KLMag(T.m, T.s, T.mu, it, lt, ls)} :
     bad' = Failed([
       value |-> Close(T.kl, KL(T.m, T.s, T.mu, it, lt, ls), mag, TOL),
       non_negative |-> RLe(RNeg(RMul("1E-12", mag)), T.kl),
       zero_at_prior |-> (T.s = T.tau /\ T.m = T.mu) => Close(T.kl, "0", mag, "1E-12"),
       inputs_kept |-> T.inputs_kept])
  /\ phase' = "gradient" /\ UNCHANGED tr
Gradient ==
  /\ phase = "gradient"
  /\ \E it \in {SpdInv(T.tau)}, is \in {SpdInv(T.s)} :
     bad' = bad \cup Failed([
       d_mean |-> VClose(T.dm, VAdd(T.lam, KLDm(T.m, T.mu, it)),
                    RSum(<<VMaxAbs(T.lam), RMul(MMaxAbs(it), RAdd(VMaxAbs(T.m), VMaxAbs(T.mu)))>>), TOL),
       d_cov  |-> MClose(T.ds, MAdd(T.psi, KLDs(it, is)),
                    RSum(<<MMaxAbs(T.psi), MMaxAbs(it), MMaxAbs(is)>>), TOL)])
  /\ phase' = "end" /\ UNCHANGED tr
  /\ Verdict(tr, 2, bad')
Spec == Init /\ [][Malformed \/ ValueStep \/ Gradient]_<<tr, phase, bad>>
=============================================================================
