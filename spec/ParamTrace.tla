----------------------------- MODULE ParamTrace -----------------------------
(***************************************************************************)
(* C17. Real parameter histories. The state keeps, for every object, the   *)
(* noise matrix and the drift parameter of the last accepted request;      *)
(* whether a request is acceptable is decided here from its values.        *)
(***************************************************************************)
EXTENDS HPReal, Trace
VARIABLES tr, k, obj, bad
vars == <<tr, k, obj, bad>>
T == Traces[tr]
d == T.dim
Absent == [live |-> FALSE]
Init == tr \in 1..NTraces /\ k = 0 /\ bad = {} /\ obj = [o \in 1..Traces[tr].objects |-> Absent]

(* A noise request: form "scalar", "vector" or "matrix" with its values.   *)
Expand(r) == IF r.form = "scalar" THEN MScale(r.v, MEye(d))
             ELSE IF r.form = "vector" THEN MDiag(r.v) ELSE r.v
RightShape(r) == \/ r.form = "scalar"
                 \/ r.form = "vector" /\ Len(r.v) = d
                 \/ r.form = "matrix" /\ IsMat(r.v, d, d)
NoiseOk(r) == RightShape(r) /\ Cholesky(Expand(r)) # <<>>
ThetaOk(th) == T.model = "OU" => RPos(th[1])
SizeOk == T.model = "L96" => d >= 10
Acceptable(e) == CASE e.op = "new"   -> NoiseOk(e.noise) /\ ThetaOk(e.theta) /\ SizeOk
                   [] e.op = "sigma" -> NoiseOk(e.noise)
                   [] e.op = "theta" -> ThetaOk(e.theta)
(* The update of a noise matrix by a scalar or vector is not part of the   *)
(* interface of the Lorenz models: it may be rejected.                     *)
MayReject(e) == e.op = "sigma" /\ T.model \in {"L63", "L96"} /\ e.noise.form # "matrix"

Live(o) == obj[o].live
Step ==
  /\ k >= 0 /\ k < Len(T.events)
  /\ LET e == T.events[k + 1]
         done == e.outcome = "ok"
         new == [live |-> TRUE,
                 sigma |-> IF e.op = "theta" THEN obj[e.o].sigma
                           ELSE IF RightShape(e.noise) THEN Expand(e.noise) ELSE <<>>,
                 theta |-> IF e.op = "sigma" THEN obj[e.o].theta ELSE e.theta]
     IN \E ok \in {Acceptable(e)} : \E now \in {TLCEval(IF done THEN [obj EXCEPT ![e.o] = new] ELSE obj)} :
        /\ bad' = bad \cup Failed(
             [accepted |-> ok => (done \/ MayReject(e)),
              rejected |-> ~ok => ~done,
              arguments_kept |-> e.kept])
           \cup (IF done /\ ~ok THEN {} ELSE UNION {
             LET rep == e.report[o] IN
             IF ~now[o].live THEN {}
             ELSE IF ~(RAllNum(<<rep.sigma, rep.inverse, rep.theta>>) /\ IsMat(rep.sigma, d, d) /\ IsMat(rep.inverse, d, d)
                       /\ rep.shapes = T.want_shapes)
             THEN {"malformed report"}
             ELSE Failed(
               [noise   |-> MClose(rep.sigma, now[o].sigma, "0", "1E-13"),
                inverse |-> MClose(MatMul(rep.inverse, now[o].sigma), MEye(d),
                                   RMul(d, RMul(MMaxAbs(rep.inverse), MMaxAbs(now[o].sigma))), "1E-10"),
                drift   |-> VClose(rep.theta, now[o].theta, "0", "0")])
             : o \in DOMAIN now})
        /\ obj' = now
        /\ k' = IF done /\ ~ok THEN Len(T.events) ELSE k + 1
  /\ UNCHANGED tr
Finish ==
  /\ k = Len(T.events)
  /\ k' = -1 /\ UNCHANGED <<tr, obj, bad>>
  /\ Verdict(tr, k, bad)
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
