------------------------------ MODULE UtTrace ------------------------------
(***************************************************************************)
(* C07. The recorded calls of the unscented transform: the points on which *)
(* the function was evaluated, its values there, and what was returned.    *)
(* Any square root of the covariance and any order of the points is fine.  *)
(***************************************************************************)
EXTENDS SigmaPoints, Trace
VARIABLES tr, phase, c, bad
T == Traces[tr]
TOL == "1E-9"
D == Len(T.m)

Shapes ==
  /\ T.outcome = "ok"
  /\ T.calls = 1
  /\ RAllNum(<<T.chi, T.y, T.ybar, T.ycov>>)
  /\ IsMat(T.chi, 2 * D + 1, D)
  /\ DOMAIN T.y = 1..(2 * D + 1) /\ IsVec(T.ybar, Len(T.y[1]))
  /\ IsMat(T.ycov, Len(T.y[1]), Len(T.y[1]))

(* The centre is the point closest to the mean (a component without        *)
(* variance puts more points there, and any of them may be the centre);    *)
(* the others come in pairs mirrored at the mean.                          *)
Dist(p) == VMaxAbs(VSub(T.chi[p], T.m))
Centres == LET d == TLCEval([p \in DOMAIN T.chi |-> Dist(p)]) IN
           {p \in DOMAIN T.chi : \A q \in DOMAIN T.chi : RLe(d[p], d[q])}
Scale == RAdd(VMaxAbs(T.m), RSqrt(RMul(Spread2(D), MMaxAbs(T.S))))
Scatter == LET z == TLCEval([p \in DOMAIN T.chi |-> VSub(T.chi[p], T.m)])
           IN TLCEval([i \in 1..D |-> [j \in 1..D |->
                RSum([p \in DOMAIN z |-> RMul(z[p][i], z[p][j])])]])
Want(S) == MScale(RMul(2, Spread2(D)), S)


Init == tr \in 1..NTraces /\ phase = "points" /\ c = 0 /\ bad = {}
Malformed ==
  /\ phase = "points" /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome} /\ phase' = "end" /\ UNCHANGED <<tr, c>>
  /\ Verdict(tr, 1, bad')
Points ==
  /\ phase = "points" /\ Shapes
  /\ c' \in Centres
  /\ \E sc \in {Scatter}, full \in {Cholesky(T.S) # <<>>} :
     bad' = Failed([
       centre  |-> VClose(T.chi[c'], T.m, Scale, "1E-12"),
       mirror  |-> \A p \in DOMAIN T.chi : \E q \in DOMAIN T.chi :
                     /\ (p = c') <=> (q = p)
                     /\ VClose(VAdd(T.chi[p], T.chi[q]), VScale(2, T.m), Scale, "1E-12"),
       spread  |-> MClose(sc, Want(IF full THEN T.S ELSE MDiag(DiagOf(T.S))),
                          RSq(Scale), TOL),
       extra_arguments |-> T.args_ok,
       inputs_kept |-> T.inputs_kept])
  /\ phase' = "result" /\ UNCHANGED tr
Result ==
  /\ phase = "result"
  /\ \E ws \in {SigmaW(D)}, ym \in {MMaxAbs(T.y)} :
     \E w \in {[p \in DOMAIN T.chi |-> IF p = c THEN ws[1] ELSE ws[2]]} : \E mu \in {WMean(w, T.y)} :
     bad' = bad \cup Failed([
       mean |-> VClose(T.ybar, mu, ym, TOL),
       cov  |-> MClose(T.ycov, TLCEval(WCov(w, T.y, mu)), RSq(ym), TOL),
       affine_mean |-> T.fun = "affine" => VClose(T.ybar, T.exact_mean, ym, TOL),
       affine_cov  |-> T.fun = "affine" => MClose(T.ycov, T.exact_cov, RSq(ym), TOL),
       quadratic_mean |-> T.fun = "quadratic" => VClose(T.ybar, T.exact_mean, ym, TOL)])
  /\ phase' = "end" /\ UNCHANGED <<tr, c>>
  /\ Verdict(tr, 2, bad')
Spec == Init /\ [][Malformed \/ Points \/ Result]_<<tr, phase, c, bad>>
=============================================================================
