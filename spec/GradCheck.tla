------------------------------ MODULE GradCheck ------------------------------
(***************************************************************************)
(* C26. The gradient check of the optimiser. A trace carries the point,    *)
(* the gradient the function supplied there, every evaluation of the       *)
(* objective that the check made, and what it printed. One transition per  *)
(* component: the central difference of that component from the recorded   *)
(* evaluations at x + h e_i and x - h e_i, h = 1e-6. The verdict is        *)
(* "PASSED" exactly if the Euclidean distance of the two gradients,        *)
(* divided by the number of components, is within the tolerance.           *)
(***************************************************************************)
EXTENDS Trace
VARIABLES tr, i, na, nn, nd, bad
vars == <<tr, i, na, nn, nd, bad>>
T == Traces[tr]
H == "1E-6"
dim == Len(T.x)
Init == tr \in 1..NTraces /\ i = 0 /\ na = "0" /\ nn = "0" /\ nd = "0" /\ bad = {}

Malformed ==
  /\ i = 0 /\ T.outcome # "ok"
  /\ bad' = {"malformed: " \o T.outcome} /\ i' = -1 /\ UNCHANGED <<tr, na, nn, nd>>
  /\ Verdict(tr, 1, bad')
Begin ==
  /\ i = 0 /\ T.outcome = "ok" /\ i' = 1
  /\ bad' = Failed([gradient_at_point |-> /\ Len(T.df_calls) = 1
                                          /\ VClose(T.df_calls[1].x, T.x, "0", "0")
                                          /\ T.df_calls[1].eval_fun,
                    point_kept |-> T.kept])
  /\ UNCHANGED <<tr, na, nn, nd>>

(* The recorded evaluations displaced by c in component i and nowhere else.*)
Displaced(c, j) ==
  \A m \in 1..dim : LET r == RSub(T.f_calls[j].x[m], T.x[m]) IN
    RLe(RAbs(RSub(r, IF m = i THEN c ELSE "0")),
        IF m = i THEN RAdd("1E-13", RMul("4E-16", RAbs(T.x[m]))) ELSE "0")
At_(c) == {j \in DOMAIN T.f_calls : Displaced(c, j)}
Component ==
  /\ i >= 1 /\ i <= dim
  /\ \E up \in {At_(H)} : \E down \in {At_(RNeg(H))} :
     IF up = {} \/ down = {}
     THEN bad' = bad \cup {"differences_central"} /\ UNCHANGED <<na, nn, nd>>
     ELSE LET p == T.f_calls[CHOOSE j \in up : TRUE].v
              m == T.f_calls[CHOOSE j \in down : TRUE].v
          IN \E g \in {RDiv(RMul("0.5", RSub(p, m)), H)} :
               /\ na' = RAdd(na, RSq(T.ga[i])) /\ nn' = RAdd(nn, RSq(g))
               /\ nd' = RAdd(nd, RSq(RSub(T.ga[i], g)))
               /\ UNCHANGED bad
  /\ i' = i + 1 /\ UNCHANGED tr
Finish ==
  /\ i = dim + 1
  /\ \E a \in {RSqrt(na)} : \E n \in {RSqrt(nn)} : \E d \in {RSqrt(nd)} :
     LET size == RAdd(a, n)
         slack == RMul("1E-9", size)              \* rounding of the differences
         per == RDiv(d, dim)
     IN bad' = bad \cup Failed(
          [passes |-> RLe(RAdd(per, slack), T.tol) => T.verdict = "PASSED",
           fails  |-> RLt(T.tol, RSub(per, slack)) => T.verdict = "FAILED",
           decides |-> T.verdict \in {"PASSED", "FAILED"},
           distance |-> IF RLe(size, 0) \/ "differences_central" \in bad THEN TRUE
                        ELSE T.printed # "" /\ RLe(RAbs(RSub(T.printed, RDiv(d, size))),
                                                   RAdd("1E-9", RMul("6E-4", RDiv(d, size))))])
  /\ i' = -1 /\ UNCHANGED <<tr, na, nn, nd>>
  /\ Verdict(tr, dim, bad')
Spec == Init /\ [][Malformed \/ Begin \/ Component \/ Finish]_vars
=============================================================================
