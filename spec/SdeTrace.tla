------------------------------ MODULE SdeTrace ------------------------------
(***************************************************************************)
(* C14. A sample path as a behaviour of the Euler-Maruyama system          *)
(*     x' = x + f(x) dt + w,     w ~ N(0, Sigma dt), independent.          *)
(* Each transition recovers the noise w that the step must have drawn,     *)
(* whitens it with the exact Cholesky factor of Sigma, and accumulates its *)
(* moments. A path with (almost) no system noise decides the drift exactly *)
(* at every step; the others decide the law of the noise: every whitened   *)
(* draw has plausible size and their sample moments agree with independent *)
(* standard normals within six standard errors. A trace may hold several   *)
(* (short) paths on the same grid; the law is that of all their draws.     *)
(***************************************************************************)
EXTENDS DriftEnergy, Trace
VARIABLES tr, k, bad, q, iL, z, acc
vars == <<tr, k, bad, q, iL, z, acc>>
T == Traces[tr]
d == T.dim
n == T.n                         \* number of states: of `paths' paths with `per' grid points each
per == n \div T.paths
Draws == n - T.paths
Within(i) == i % per # 0        \* the step from state i to the next one is inside a path
Poly == T.model \in {"DW", "OU"}

Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ q = <<>> /\ iL = <<>> /\ z = <<>> /\ acc = <<>>

Malformed ==
  /\ k = 0 /\ ~(T.outcome = "ok" /\ RAllNum(<<T.x, T.tk>>) /\ T.shape = T.want_shape /\ n >= 2)
  /\ bad' = {"malformed: " \o T.outcome} /\ k' = -1 /\ UNCHANGED <<tr, q, iL, z, acc>>
  /\ Verdict(tr, 1, bad')

Span == RAdd(RAbs(T.t0), RAbs(T.tf))
Grid ==
  /\ k = 0 /\ T.outcome = "ok" /\ RAllNum(<<T.x, T.tk>>) /\ T.shape = T.want_shape /\ n >= 2
  /\ bad' = Failed(
       [grid_start |-> Len(T.tk) = per /\ Close(T.tk[1], T.t0, Span, "1E-12"),
        grid_step  |-> \A i \in 1..(per - 1) : Close(RSub(T.tk[i + 1], T.tk[i]), T.dt, Span, "1E-10"),
        grid_end   |-> RLe(RAbs(RSub(T.tk[per], T.tf)), RMul(T.dt, "1.000001")),
        window_kept |-> T.window_kept])
  /\ k' = 1
  /\ q' = TLCEval(IF Poly THEN <<>> ELSE DriftQuad(T.model, T.theta, d))
  /\ iL' = TLCEval(LowerInv(Cholesky(MScale(T.dt, T.sigma))))
  /\ acc' = [m1 |-> VZero(d), m2 |-> MZero(d), lag |-> MZero(d), m3 |-> VZero(d), m4 |-> VZero(d)]
  /\ UNCHANGED <<tr, z>>

Drift(x) == IF ~Poly THEN QuadAt(q, x)
            ELSE LET p == DriftPoly(T.model, T.theta[1]) IN
                 \* the paths of the Ornstein-Uhlenbeck model revert to a mean
                 LET u == IF T.model = "OU" THEN RSub(x[1], T.mu) ELSE x[1] IN
                 <<RSum([i \in 1..Len(p) |-> RMul(p[i], RPow(u, i - 1))])>>
Quiet == T.quiet                 \* path with negligible noise
Next1 ==                        \* on to the next path
  /\ k >= 1 /\ k < n /\ ~Within(k)
  /\ k' = k + 1 /\ z' = <<>> /\ UNCHANGED <<tr, bad, q, iL, acc>>
Step ==
  /\ k >= 1 /\ k < n /\ Within(k)
  /\ \E f \in {Drift(T.x[k])} :
     \E w \in {VSub(VSub(T.x[k + 1], T.x[k]), VScale(T.dt, f))} :
     IF Quiet
     THEN /\ bad' = bad \cup Failed([drift |->
                RLe(VMaxAbs(w), RMul("1E-9", RSum(<<1, VMaxAbs(T.x[k]), RMul(T.dt, VMaxAbs(f))>>)))])
          /\ UNCHANGED <<z, acc>>
     ELSE \E y \in {MatVec(iL, w)} :
          \E y2 \in {TLCEval([i \in 1..d |-> RSq(y[i])])} :
          /\ bad' = bad \cup Failed([size |-> RLe(VMaxAbs(y), "7.5"),
                                      \* no step is left without noise
                                      alive |-> \A i \in 1..d : RLt("1E-10", RAbs(y[i]))])
          /\ z' = y
          /\ acc' = [m1  |-> VAdd(acc.m1, y),
                     m2  |-> MAdd(acc.m2, Outer(y, y)),
                     lag |-> IF z = <<>> THEN acc.lag ELSE MAdd(acc.lag, Outer(y, z)),
                     m3  |-> VAdd(acc.m3, [i \in 1..d |-> RMul(y[i], y2[i])]),
                     m4  |-> VAdd(acc.m4, [i \in 1..d |-> RSq(y2[i])])]
  /\ k' = k + 1 /\ UNCHANGED <<tr, q, iL>>

(* |sum - N * mean| <= 6 * sqrt(N * variance)                              *)
Near(sum, mean, variance) ==
  RLe(RAbs(RSub(sum, RMul(Draws, mean))), RMul(6, RSqrt(RMul(Draws, variance))))
(* The sizes of all draws, to nine digits after the point: draws of a     *)
(* continuous law (almost) never come back, in whatever order or sign.    *)
White(i) == LET y == MatVec(iL, VSub(VSub(T.x[i + 1], T.x[i]), VScale(T.dt, Drift(T.x[i]))))
            IN [j \in 1..d |-> RAbs(y[j])]
Key(r) == <<RFloor(r), RFloor(RMul("1E9", RSub(r, RFloor(r))))>>
Keys == UNION {LET y == White(i) IN {Key(y[j]) : j \in 1..d} : i \in {j \in 1..(n - 1) : Within(j)}}

Finish ==
  /\ k = n
  /\ bad' = bad \cup IF Quiet \/ Draws < 200 THEN {} ELSE Failed(
       [all_different |-> RLe(d * Draws - 20, Cardinality(Keys)),
        mean |-> \A i \in 1..d : Near(acc.m1[i], 0, 1),
        variance |-> RLe(RAbs(RSub(RSum([i \in 1..d |-> acc.m2[i][i]]), d * Draws)), RMul(6, RSqrt(2 * d * Draws))),
        covariance |-> \A i, j \in 1..d : IF i = j THEN Near(acc.m2[i][j], 1, 2) ELSE Near(acc.m2[i][j], 0, 1),
        independence |-> \A i, j \in 1..d : Near(acc.lag[i][j], 0, 1),
        skewness |-> \A i \in 1..d : Near(acc.m3[i], 0, 15),
        kurtosis |-> \A i \in 1..d : Near(acc.m4[i], 3, 96)])
  /\ k' = -1 /\ UNCHANGED <<tr, q, iL, z, acc>>
  /\ Verdict(tr, n, bad')
Spec == Init /\ [][Malformed \/ Grid \/ Next1 \/ Step \/ Finish]_vars
=============================================================================
