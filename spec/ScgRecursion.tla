---------------------------- MODULE ScgRecursion ----------------------------
(***************************************************************************)
(* C13. The scaled conjugate gradient recursion (Moller 1993, as in        *)
(* Netlab). The environment answers with function values and gradients     *)
(* (taken from the trace); the algorithm's state determines every point it *)
(* evaluates next.                                                         *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, k, phase, iter, bad,
          x, f, g, gold,       \* accepted point, value, gradient; gradient before the last trial
          d, mu, kappa, theta, \* direction, slope, squared length, curvature
          beta, count          \* scale, successes since the last restart
vars == <<tr, k, phase, iter, bad, x, f, g, gold, d, mu, kappa, theta, beta, count>>
T == Traces[tr]
V(i) == T.visits[i]
TOL == "1E-5"
Probe0 == "0.001"
Init ==
  /\ tr \in 1..NTraces /\ k = 0 /\ phase = "start" /\ iter = 0 /\ bad = {}
  /\ x = <<>> /\ f = "0" /\ g = <<>> /\ gold = <<>> /\ d = <<>>
  /\ mu = "0" /\ kappa = "0" /\ theta = "0" /\ beta = "1" /\ count = 0
algo == <<x, f, g, gold, d, mu, kappa, theta, beta, count>>
dim == Len(T.x0)

Malformed ==
  /\ phase = "start" /\ (T.outcome # "ok" \/ Len(T.visits) = 0)
  /\ bad' = {"malformed: " \o T.outcome} /\ phase' = "end"
  /\ UNCHANGED <<tr, k, iter, algo>>
  /\ Verdict(tr, 1, bad')
Begin ==
  /\ phase = "start" /\ T.outcome = "ok" /\ Len(T.visits) > 0
  /\ k' = 1 /\ phase' = "direction"
  /\ x' = V(1).x /\ f' = V(1).f /\ g' = V(1).g /\ gold' = V(1).g
  /\ d' = VScale("-1", V(1).g)
  /\ bad' = Failed([start |-> VClose(V(1).x, T.x0, "0", "0"), start_evaluated |-> V(1).hasf /\ V(1).hasg,
                    arguments |-> T.args_ok])
  /\ UNCHANGED <<tr, iter, mu, kappa, theta, beta, count>>

(* An observed point against the prescribed one; `size' is the length of   *)
(* the step that was taken from x.                                         *)
PointClose(obs, spec, size) ==
  \A i \in 1..dim : RLe(RAbs(RSub(obs[i], spec[i])),
                        RAdd(RMul(TOL, size), RMul("1E-13", RAbs(x[i]))))

(* After a success: slope and curvature along the direction.               *)
Direction ==
  /\ phase = "direction" /\ iter < T.max_it
  /\ \E down \in {RLt(RDot(d, g), 0)} :
     \E dd \in {IF down THEN d ELSE VScale("-1", g)} :
     \E kap \in {RDot(dd, dd)} :
       /\ d' = dd /\ mu' = RDot(dd, g) /\ kappa' = kap
       /\ IF RLt(kap, "2.220446049250313E-16")
          THEN phase' = "stop" /\ UNCHANGED <<k, theta, bad>>
          ELSE IF k = Len(T.visits) THEN phase' = "stuck" /\ UNCHANGED <<k, theta, bad>>
          ELSE \E s \in {RDiv(Probe0, RSqrt(kap))} :
               /\ k' = k + 1
               /\ theta' = IF V(k + 1).hasg THEN RDiv(RDot(dd, VSub(V(k + 1).g, g)), s) ELSE "0"
               /\ bad' = bad \cup Failed(
                    [probe_point |-> PointClose(V(k + 1).x, VAdd(x, VScale(s, dd)), Probe0),
                     probe_gradient |-> V(k + 1).hasg])
               /\ phase' = "trial"
  /\ UNCHANGED <<tr, iter, x, f, g, gold, beta, count>>

Trial ==
  /\ phase = "trial" /\ iter < T.max_it /\ k < Len(T.visits)
  /\ iter' = iter + 1 /\ k' = k + 1
  /\ \E delta0 \in {RAdd(theta, RMul(beta, kappa))} :
     \E neg \in {RLe(delta0, 0)} :
     \E delta \in {IF neg THEN RMul(beta, kappa) ELSE delta0},
        beta1 \in {IF neg THEN RSub(beta, RDiv(theta, kappa)) ELSE beta} :
     \E alpha \in {RNeg(RDiv(mu, delta))}, v \in {V(k + 1)} :
     \E ratio \in {RDiv(RMul(2, RSub(v.f, f)), RMul(alpha, mu))} :
     \E size \in {RMul(RAbs(alpha), RSqrt(kappa))}, accept \in {RLe(0, ratio)} :
       /\ bad' = bad \cup Failed(
            [trial_point |-> PointClose(v.x, VAdd(x, VScale(alpha, d)), size),
             trial_value |-> v.hasf])
       /\ beta' = LET up == IF RLt(ratio, "0.25") THEN RMin(RMul(4, beta1), "1E100") ELSE beta1
                  IN IF RLt("0.75", ratio) THEN RMax(RMul("0.5", up), "1E-15") ELSE up
       /\ IF ~accept
          THEN phase' = "trial" /\ UNCHANGED <<x, f, g, gold, d, count>>
          ELSE IF /\ RLe(VMaxAbs(VScale(alpha, d)), T.x_tol)
                  /\ RLe(RAbs(RSub(v.f, f)), T.f_tol)
          THEN /\ phase' = "stop" /\ x' = v.x /\ f' = v.f
               /\ UNCHANGED <<g, gold, d, count>>
          ELSE IF ~v.hasg THEN phase' = "stuck" /\ UNCHANGED <<x, f, g, gold, d, count>>
          ELSE /\ phase' = IF RLe(RDot(v.g, v.g), "1E-8") THEN "stop" ELSE "direction"
               /\ x' = v.x /\ f' = v.f /\ g' = v.g /\ gold' = g
               /\ IF count + 1 = dim
                  THEN d' = VScale("-1", v.g) /\ count' = 0
                  ELSE /\ count' = count + 1
                       /\ d' = VSub(VScale(RMax(RDiv(RDot(v.g, VSub(g, v.g)), mu), 0), d), v.g)
  /\ UNCHANGED <<tr, mu, kappa, theta>>

Finish ==
  /\ phase \notin {"start", "end"}
  /\ \/ phase \in {"stop", "stuck"}
     \/ iter = T.max_it
     \/ phase = "trial" /\ k = Len(T.visits)
  /\ bad' = bad \cup Failed(
       [ends_here |-> k = Len(T.visits) /\ (phase = "stop" \/ iter = T.max_it),
        result    |-> VClose(T.x, x, "0", "0") /\ Close(T.val, f, "0", "0")])
  /\ phase' = "end"
  /\ UNCHANGED <<tr, k, iter, algo>>
  /\ Verdict(tr, k, bad')
Next == Malformed \/ Begin \/ Direction \/ Trial \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
