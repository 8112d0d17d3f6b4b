------------------------------ MODULE ObsTrace ------------------------------
(* C08. One transition per observation (accumulating the energy), then one *)
(* per grid point (the sensitivities there).                               *)
EXTENDS Likelihood, Trace
VARIABLES tr, k, acc, bad, iR, ldR
vars == <<tr, k, acc, bad, iR, ldR>>
T == Traces[tr]
TOL == "1E-9"
M == Len(T.times)
n == T.n
d == T.dim
Shapes ==
  /\ T.outcome = "ok"
  /\ RAllNum(<<T.E, T.dm, T.ds>>)
  /\ T.shapes = T.want_shapes
  /\ IsMat(T.dm, n, d) /\ DOMAIN T.ds = 1..n /\ \A i \in 1..n : IsMat(T.ds[i], d, d)
Init == tr \in 1..NTraces /\ k = 0 /\ acc = <<"0", "0">> /\ bad = {} /\ iR = <<>> /\ ldR = "0"
Malformed ==
  /\ k = 0 /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome} /\ k' = -1 /\ UNCHANGED <<tr, acc, iR, ldR>>
  /\ Verdict(tr, 1, bad')
Start ==
  /\ k = 0 /\ Shapes /\ k' = 1
  /\ iR' = TLCEval(SpdInv(T.R)) /\ ldR' = LogDet(T.R)
  /\ bad' = Failed([inputs_kept |-> T.inputs_kept])
  /\ UNCHANGED <<tr, acc>>
Observe ==
  /\ k > 0 /\ k <= M
  /\ LET i == T.times[k] + 1 IN      \* grid positions count from zero
     acc' = <<RAdd(acc[1], ObsEnergy(T.y[k], T.m[i], T.S[i], T.H, iR, ldR)),
              RAdd(acc[2], ObsMag(T.y[k], T.m[i], T.S[i], T.H, iR, ldR))>>
  /\ k' = k + 1 /\ UNCHANGED <<tr, bad, iR, ldR>>
Sens ==
  /\ k > M /\ k <= M + n
  /\ LET i == k - M
         obs == {j \in 1..M : T.times[j] = i - 1}
         dm == IF obs = {} THEN VZero(d)
               ELSE LET j == CHOOSE j \in obs : TRUE IN ObsDm(T.y[j], T.m[i], T.H, iR)
         ds == IF obs = {} THEN MZero(d) ELSE ObsDs(T.H, iR)
         mag == RMul(d, RMul(RMul(MMaxAbs(T.H), MMaxAbs(iR)),
                  RSum(<<1, MMaxAbs(T.H), MMaxAbs(T.y), RMul(MMaxAbs(T.H), VMaxAbs(T.m[i]))>>)))
     IN bad' = bad \cup Failed([
          d_mean |-> VClose(T.dm[i], dm, IF obs = {} THEN "0" ELSE mag, TOL),
          d_cov  |-> MClose(T.ds[i], ds, IF obs = {} THEN "0" ELSE mag, TOL)])
  /\ k' = k + 1 /\ UNCHANGED <<tr, acc, iR, ldR>>
Finish ==
  /\ k = M + n + 1
  /\ bad' = bad \cup Failed([energy |-> Close(T.E, acc[1], acc[2], TOL)])
  /\ k' = -1 /\ UNCHANGED <<tr, acc, iR, ldR>>
  /\ Verdict(tr, M + n, bad')
Next == Malformed \/ Start \/ Observe \/ Sens \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
