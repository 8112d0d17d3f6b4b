---------------------------- MODULE CollectTrace ----------------------------
(***************************************************************************)
(* C15. Observations collected by the real code. One transition per        *)
(* observation: its position and its value; the noise it must contain is   *)
(* whitened with the reported covariance and its moments accumulated.      *)
(***************************************************************************)
EXTENDS HPReal, Trace
VARIABLES tr, k, bad, iL, z, acc
vars == <<tr, k, bad, iL, z, acc>>
T == Traces[tr]
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ iL = <<>> /\ z = <<>> /\ acc = <<>>

(* One observation per step is the limit; exactly at the limit both        *)
(* outcomes are possible in floating point unless the grid is exact.       *)
Load == RMul(T.density, T.dt)
MustReject == T.missing \/ RLt("1.000001", Load)
MustAccept == ~T.missing /\ (RLt(Load, "0.999999") \/ (T.exact /\ RLe(Load, 1)))
Count == RMul(T.density, RAbs(RSub(T.last, T.first)))
Counts == {RFloor(RAdd(Count, "1E-9")), RFloor(RSub(Count, "1E-9"))}
m == Len(T.pos)
q == Len(T.mask)

Reject ==
  /\ k = 0 /\ (MustReject \/ (T.outcome = "error" /\ ~MustAccept))
  /\ bad' = Failed([rejected |-> T.outcome = "error", path_kept |-> T.path_kept])
  /\ k' = -1 /\ UNCHANGED <<tr, iL, z, acc>> /\ Verdict(tr, 1, bad')
Shapes == T.outcome = "ok" /\ RAllNum(<<T.y, T.noise>>) /\ T.y_shape = T.want_y_shape /\ T.integers
Malformed ==
  /\ k = 0 /\ ~MustReject /\ ~Shapes /\ (T.outcome = "ok" \/ MustAccept)
  /\ bad' = {"malformed: " \o T.outcome} /\ k' = -1 /\ UNCHANGED <<tr, iL, z, acc>> /\ Verdict(tr, 1, bad')
Start ==
  /\ k = 0 /\ ~MustReject /\ Shapes
  /\ bad' = Failed(
       [count |-> m \in Counts,
        reported_noise |-> IsMat(T.noise, q, q) /\
             \A i \in 1..q : Close(T.noise[i][i], T.variance[i], "0", "1E-12"),
        path_kept |-> T.path_kept,
        inputs_kept |-> T.inputs_kept])
  /\ k' = IF "reported_noise" \in bad' THEN -1 ELSE 1
  /\ iL' = IF "reported_noise" \in bad' THEN <<>> ELSE TLCEval(LowerInv(Cholesky(T.noise)))
  /\ acc' = [m1 |-> VZero(q), m2 |-> MZero(q), lag |-> MZero(q), m4 |-> VZero(q)]
  /\ ("reported_noise" \in bad' => Verdict(tr, 1, bad'))
  /\ UNCHANGED <<tr, z>>

Observe ==
  /\ k >= 1 /\ k <= m
  /\ LET p == T.pos[k]
         inside == p >= 0 /\ p <= T.n - 1
         true == IF inside THEN [c \in 1..q |-> T.x[p + 1][T.mask[c] + 1]] ELSE VZero(q)
         w == VSub(T.y[k], true)
     IN \E y \in {MatVec(iL, w)} :
        /\ bad' = bad \cup Failed(
             [inside |-> inside,
              increasing |-> k > 1 => T.pos[k - 1] < p,
              evenly |-> /\ (m + 1) * p <= k * T.n + (m + 1)
                         /\ (m + 1) * p >= k * T.n - (m + 1),
              value |-> T.quiet => RLe(VMaxAbs(w), RMul("1E-9", RAdd(1, VMaxAbs(true)))),
              size  |-> ~T.quiet => RLe(VMaxAbs(y), "7.5")])
        /\ z' = y
        /\ acc' = IF T.quiet THEN acc ELSE
                  [m1  |-> VAdd(acc.m1, y),
                   m2  |-> MAdd(acc.m2, Outer(y, y)),
                   lag |-> IF z = <<>> THEN acc.lag ELSE MAdd(acc.lag, Outer(y, z)),
                   m4  |-> VAdd(acc.m4, [i \in 1..q |-> RSq(RSq(y[i]))])]
  /\ k' = k + 1 /\ UNCHANGED <<tr, iL>>

Near(sum, mean, variance) ==
  RLe(RAbs(RSub(sum, RMul(m, mean))), RMul(6, RSqrt(RMul(m, variance))))
Finish ==
  /\ k = m + 1
  /\ bad' = bad \cup IF T.quiet \/ m < 200 THEN {} ELSE Failed(
       [mean |-> \A i \in 1..q : Near(acc.m1[i], 0, 1),
        covariance |-> \A i, j \in 1..q : IF i = j THEN Near(acc.m2[i][j], 1, 2) ELSE Near(acc.m2[i][j], 0, 1),
        independence |-> \A i, j \in 1..q : Near(acc.lag[i][j], 0, 1),
        kurtosis |-> \A i \in 1..q : Near(acc.m4[i], 3, 96)])
  /\ k' = -1 /\ UNCHANGED <<tr, iL, z, acc>>
  /\ Verdict(tr, m, bad')
Spec == Init /\ [][Reject \/ Malformed \/ Start \/ Observe \/ Finish]_vars
=============================================================================
