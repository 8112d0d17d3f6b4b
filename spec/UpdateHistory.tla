--------------------------- MODULE UpdateHistory ---------------------------
(***************************************************************************)
(* C24, the design. Variational objects whose model parameters and         *)
(* observation noise are updated between evaluations. The configuration    *)
(* belongs to the model and the likelihood, which two objects may share.   *)
(* The result of an evaluation is a function of the object's problem, the  *)
(* current configuration and the point: nothing of the configurations that *)
(* were in force before may be left.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objects, Points, Depth, Shares
VARIABLES share, cfg, hist, result
vars == <<share, cfg, hist, result>>
Params == {"sigma", "theta", "noise"}
First == [p \in Params |-> 1]
Init == /\ share \in Shares /\ cfg = [o \in Objects |-> First] /\ hist = <<>> /\ result = <<>>

Do(op, o, x) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, o |-> o, x |-> x]) /\ UNCHANGED share
Sees(o, u) == o = u \/ share              \* object u is affected by updates of the parts of o
Update(o, p) ==                           \* to the other value of the parameter
  /\ Do(p, o, 3 - cfg[o][p])
  /\ cfg' = [u \in Objects |-> IF Sees(o, u) THEN [cfg[u] EXCEPT ![p] = 3 - cfg[o][p]] ELSE cfg[u]]
  /\ UNCHANGED result
Again(o, p) ==                            \* to the value it has
  /\ Do(p, o, cfg[o][p]) /\ UNCHANGED <<cfg, result>>
Reject(o) ==                              \* an inadmissible noise
  /\ Do("bad", o, 0) /\ UNCHANGED <<cfg, result>>
Energy(o, x)   == Do("energy", o, x)   /\ result' = <<"F", o, x, cfg[o]>> /\ UNCHANGED cfg
GradEval(o, x) == Do("gradeval", o, x) /\ result' = <<"G", o, x, cfg[o]>> /\ UNCHANGED cfg
Guess(o)       == Do("guess", o, 0)    /\ result' = <<"X", o, 0, cfg[o]>> /\ UNCHANGED cfg
Next == \E o \in Objects :
          \/ \E p \in Params : (~share \/ o = 1) /\ (Update(o, p) \/ (p = "sigma" /\ Again(o, p)))
          \/ o = 1 /\ Reject(o)
          \/ \E x \in Points : Energy(o, x) \/ GradEval(o, x)
          \/ Guess(o)
Spec == Init /\ [][Next]_vars

(* The configuration in force is that of the last accepted updates.        *)
LastSet(o, p) ==
  LET I == {i \in DOMAIN hist : hist[i].op = p /\ Sees(hist[i].o, o)} IN
  IF I = {} THEN 1 ELSE hist[CHOOSE i \in I : \A j \in I : j <= i].x
LastWins == \A o \in Objects, p \in Params : cfg[o][p] = LastSet(o, p)
SharedAgree == share => \A o, u \in Objects : cfg[o] = cfg[u]
Emit == LET e == hist[Len(hist)] IN
        (/\ Len(hist) = Depth /\ e.op \in {"energy", "gradeval", "guess"}
         /\ \E i \in DOMAIN hist : hist[i].op \in Params \cup {"bad"}) =>
        PrintT("BEHAVIOUR " \o ToJson([share |-> share, hist |-> hist]))
=============================================================================
