---------------------------- MODULE HelpersTrace ----------------------------
(***************************************************************************)
(* C22. Matrix and calculus helpers; one transition per recorded call.     *)
(***************************************************************************)
EXTENDS HPReal, Trace
VARIABLES tr, done, bad
T == Traces[tr]
Init == tr \in 1..NTraces /\ done = FALSE /\ bad = {}
Ok == T.outcome = "ok" /\ T.shapes = T.want_shapes /\ RAllNum(T.res)

(* chol_inv: T.a the matrix, res = <<inverse, inverse of the factor>>.     *)
Inverse ==
  LET d == Len(T.a)
      I == MEye(d)
      L == TLCEval(Cholesky(T.a))
      s == RMul(d, RMul(MMaxAbs(T.a), MMaxAbs(T.res[1])))
      sl == RMul(d, RMul(MMaxAbs(L), MMaxAbs(T.res[2])))
  IN Failed([inverse |-> MClose(MatMul(T.res[1], T.a), I, s, "1E-11"),
             factor_inverse |-> MClose(MatMul(T.res[2], L), I, sl, "1E-11"),
             lower |-> \A i, j \in 1..d : j > i => RLe(RAbs(T.res[2][i][j]), RMul("1E-11", MMaxAbs(T.res[2]))),
             product |-> MClose(MatMul(MT(T.res[2]), T.res[2]), T.res[1], RMul(d, RSq(MMaxAbs(T.res[2]))), "1E-11")])

LogDetCall == Failed([log_det |-> Close(T.res, LogDet(T.a), RSum([i \in 1..Len(T.a) |-> RAdd(1, RAbs(RLog(T.a[i][i])))]), "1E-11")])

(* safe_log: T.a a sequence of arguments (infinities already as 1E400).    *)
Guard(v) == RMax(RMin(v, "1E300"), "1E-300")
SafeLog == Failed([safe_log |-> \A i \in 1..Len(T.a) : Close(T.res[i], RLog(Guard(T.a[i])), "1", "1E-13")])

(* finite_diff of x'Qx + l'x (central differences are exact) at x.         *)
Gradient ==
  LET x == T.a
      g == VAdd(MatVec(MAdd(T.Q, MT(T.Q)), x), T.l)
      size == RSum(<<RMul(Len(x) * Len(x), RMul(MMaxAbs(T.Q), RSq(RAdd(1, VMaxAbs(x))))),
                     RMul(Len(x), RMul(VMaxAbs(T.l), RAdd(1, VMaxAbs(x))))>>)
  IN Failed([gradient |-> VClose(T.res, g, size, "3E-9"), arguments |-> T.args_ok])

Call ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED tr
  /\ bad' = (IF T.kind = "reject" THEN Failed([rejected |-> T.outcome = "error"])
             ELSE IF ~Ok THEN {"malformed: " \o T.outcome}
             ELSE CASE T.kind = "chol_inv" -> Inverse
                    [] T.kind = "log_det" -> LogDetCall
                    [] T.kind = "safe_log" -> SafeLog
                    [] T.kind = "finite_diff" -> Gradient)
            \cup Failed([inputs_kept |-> T.inputs_kept])
  /\ Verdict(tr, 1, bad')
Spec == Init /\ [][Call]_<<tr, done, bad>>
=============================================================================
