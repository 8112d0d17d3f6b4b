----------------------------- MODULE StartTrace -----------------------------
(***************************************************************************)
(* C27. The state in which the path of a model starts.                     *)
(* Lorenz models: the end of 5000 noise-free Euler steps of length 0.001   *)
(* from a fixed state (one transition per step), whatever seed, noise,     *)
(* window and step were chosen. Ornstein-Uhlenbeck: the mean. Double-well: *)
(* one of the two wells plus Gaussian noise of variance sigma dt / 2; a    *)
(* trace of many seeds decides the law (one transition per path).          *)
(* T.absent: what reading path, window or step gave before there was one.  *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, x, acc, bad
vars == <<tr, k, x, acc, bad>>
T == Traces[tr]
d == T.dim
Spun == T.model \in {"L63", "L96"}
Steps == 5000
H == "0.001"

Wrap(i, n) == 1 + ((i - 1 + n) % n)
Force(i) == T.theta[IF Len(T.theta) = 1 THEN 1 ELSE i]
Drift(y) ==
  IF T.model = "L63"
  THEN <<RMul(T.theta[1], RSub(y[2], y[1])),
         RSub(RMul(RSub(T.theta[2], y[3]), y[1]), y[2]),
         RSub(RMul(y[1], y[2]), RMul(T.theta[3], y[3]))>>
  ELSE [i \in 1..d |-> RAdd(RSub(RMul(RSub(y[Wrap(i + 1, d)], y[Wrap(i - 2, d)]), y[Wrap(i - 1, d)]), y[i]), Force(i))]
First == IF T.model = "L63" THEN <<"1", "1", "1">>
         ELSE [i \in 1..d |-> IF i = 1 + (d \div 2) THEN RAdd(Force(i), H) ELSE Force(i)]

Init == tr \in 1..NTraces /\ k = 0 /\ x = <<>> /\ acc = <<>> /\ bad = {}
Malformed ==
  /\ k = 0 /\ ~(T.outcome = "ok" /\ RAllNum(T.starts))
  /\ bad' = {"malformed: " \o T.outcome} /\ k' = -1 /\ UNCHANGED <<tr, x, acc>>
  /\ Verdict(tr, 1, bad')
Begin ==
  /\ k = 0 /\ T.outcome = "ok" /\ RAllNum(T.starts) /\ k' = 1
  /\ x' = (IF Spun THEN First ELSE <<>>)
  /\ acc' = [up |-> 0, m1 |-> "0", m2 |-> "0", lag |-> "0", sw |-> 0, last |-> "0", side |-> 0]
  /\ bad' = Failed([absent |-> T.absent])
  /\ UNCHANGED tr
Spin ==
  /\ Spun /\ k >= 1 /\ k <= Steps /\ k' = k + 1
  /\ \E f \in {Drift(x)} : x' = VAdd(x, VScale(H, f))
  /\ UNCHANGED <<tr, acc, bad>>
SpunEnd ==
  /\ Spun /\ k = Steps + 1 /\ k' = -1
  /\ bad' = bad \cup Failed([start |-> \A j \in DOMAIN T.starts :
        /\ Len(T.starts[j]) = d
        /\ RLe(VMaxAbs(VSub(T.starts[j], x)), RMul("1E-6", VMaxAbs(x)))])
  /\ UNCHANGED <<tr, x, acc>>
  /\ Verdict(tr, Steps, bad')
Mean ==
  /\ T.model = "OU" /\ k = 1 /\ k' = -1
  /\ bad' = bad \cup Failed([start |-> \A j \in DOMAIN T.starts :
        RLe(RAbs(RSub(T.starts[j][1], T.mu[j])), RMul("1E-14", RAbs(T.mu[j])))])
  /\ UNCHANGED <<tr, x, acc>>
  /\ Verdict(tr, Len(T.starts), bad')
(* Double-well: the well and the whitened deviation from it.               *)
N == Len(T.starts)
Well ==
  /\ T.model = "DW" /\ k >= 1 /\ k <= N /\ k' = k + 1
  /\ LET v == T.starts[k][1]
         side == IF RLe(RAbs(RSub(v, T.theta[1])), RAbs(RAdd(v, T.theta[1]))) THEN 1 ELSE -1
     IN \E y \in {RDiv(RSub(v, RMul(side, T.theta[1])), RSqrt(RMul("0.5", RMul(T.sigma, T.dt))))} :
        /\ bad' = bad \cup Failed([start |-> RLe(RAbs(y), "7.5")])
        /\ acc' = [up |-> acc.up + (IF side = 1 THEN 1 ELSE 0), m1 |-> RAdd(acc.m1, y), m2 |-> RAdd(acc.m2, RSq(y)),
                   lag |-> RAdd(acc.lag, RMul(y, acc.last)), last |-> y,
                   sw |-> acc.sw + (IF side = acc.side THEN 1 ELSE 0), side |-> side]
  /\ UNCHANGED <<tr, x>>
Near(sum, mean, variance) ==
  RLe(RAbs(RSub(sum, RMul(N, mean))), RMul(6, RSqrt(RMul(N, variance))))
WellEnd ==
  /\ T.model = "DW" /\ k = N + 1 /\ k' = -1
  /\ bad' = bad \cup IF N < 100 THEN {} ELSE Failed(
       [both_wells |-> Near(acc.up, "0.5", "0.25"), wells_independent |-> Near(acc.sw, "0.5", "0.25"),
        mean |-> Near(acc.m1, 0, 1), variance |-> Near(acc.m2, 1, 2), independence |-> Near(acc.lag, 0, 1)])
  /\ UNCHANGED <<tr, x, acc>>
  /\ Verdict(tr, N, bad')
Spec == Init /\ [][Malformed \/ Begin \/ Spin \/ SpunEnd \/ Mean \/ Well \/ WellEnd]_vars
=============================================================================
