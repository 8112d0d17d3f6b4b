----------------------------- MODULE GuessTrace -----------------------------
(***************************************************************************)
(* C23. The initial variational parameters; one transition per grid point. *)
(***************************************************************************)
EXTENDS Spline, Trace
VARIABLES tr, k, bad, t, y, M, cur
vars == <<tr, k, bad, t, y, M, cur>>
(* t: knots; y[c], M[c]: values and second derivatives per component; cur: *)
(* the spline at grid point k.                                             *)
T == Traces[tr]
d == T.dim
n == T.n
TOL == "1E-8"
Shapes == /\ T.outcome = "ok" /\ T.shape = T.want_shape /\ RAllNum(<<T.A, T.b>>)
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ t = <<>> /\ y = <<>> /\ M = <<>> /\ cur = <<>>
Malformed ==
  /\ k = 0 /\ ~Shapes
  /\ bad' = {"malformed: " \o T.outcome} /\ k' = -1 /\ UNCHANGED <<tr, t, y, M, cur>>
  /\ Verdict(tr, 1, bad')
(* Knots: the observations, and the ends of the window unless observed.    *)
first == T.times[1]
last  == T.times[Len(T.times)]
KnotIdx == (IF first = 0 THEN <<>> ELSE <<0>>) \o T.times \o (IF last = n - 1 THEN <<>> ELSE <<n - 1>>)
KnotVal(c) == (IF first = 0 THEN <<>> ELSE <<T.y[1][c]>>) \o [j \in 1..Len(T.times) |-> T.y[j][c]]
                 \o (IF last = n - 1 THEN <<>> ELSE <<T.y[Len(T.times)][c]>>)
Val(i) == TLCEval([c \in 1..d |-> SplineAt(t, y[c], M[c], T.tk[i])])
Start ==
  /\ k = 0 /\ Shapes
  /\ \E kt \in {TLCEval([j \in 1..Len(KnotIdx) |-> T.tk[KnotIdx[j] + 1]])} :
     \E ky \in {TLCEval([c \in 1..d |-> KnotVal(c)])} :
        t' = kt /\ y' = ky /\ M' = TLCEval([c \in 1..d |-> TLCEval(Moments2(kt, ky[c]))])
  /\ k' = 1 /\ cur' = <<>>
  /\ bad' = Failed([inputs_kept |-> T.inputs_kept])
  /\ UNCHANGED tr
Diag2(S) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN RMul(2, S[i][i]) ELSE "0"]]
Scale == RSum(<<1, MMaxAbs(T.y), MMaxAbs(M)>>)
Point ==
  /\ k >= 1 /\ k <= n
  /\ \E here \in {IF cur = <<>> THEN Val(k) ELSE cur} :
     \E next \in {IF k < n THEN Val(k + 1) ELSE here} :
     LET a == Diag2(T.sigma)
         follow == VAdd(VScale(RDiv(1, T.dt), VSub(next, here)), MatVec(a, here))
         want == IF T.single THEN here ELSE follow
         scale == IF T.single THEN Scale ELSE RMul(Scale, RAdd(RDiv(1, T.dt), MMaxAbs(a)))
     IN /\ bad' = bad \cup Failed(
             [drift  |-> MClose(T.A[k], a, "0", "1E-12"),
              offset |-> VClose(T.b[k], want, scale, TOL)])
        /\ cur' = IF k < n THEN next ELSE <<>>
  /\ k' = k + 1 /\ UNCHANGED <<tr, t, y, M>>
Finish ==
  /\ k = n + 1
  /\ k' = -1 /\ UNCHANGED <<tr, bad, t, y, M, cur>>
  /\ Verdict(tr, n, bad)
Spec == Init /\ [][Malformed \/ Start \/ Point \/ Finish]_vars
=============================================================================
