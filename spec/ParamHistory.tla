---------------------------- MODULE ParamHistory ----------------------------
(***************************************************************************)
(* C17, the design. Parameters of model objects under construction and     *)
(* update. Every request carries a fresh tag; the state of an object is    *)
(* the pair of tags of the last accepted noise and drift parameter, and    *)
(* the tag of the noise that its stored inverse belongs to.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objects, Depth, NewKinds, SetKinds, ThetaKinds, Good
VARIABLES obj, hist
vars == <<obj, hist>>
Absent == [sigma |-> 0, theta |-> 0, inverse |-> 0]
Init == obj = [o \in Objects |-> Absent] /\ hist = <<>>
Tag == Len(hist) + 1
Do(op, o, kind) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, o |-> o, kind |-> kind])
New(o, kind) ==
  /\ Do("new", o, kind)
  /\ obj' = IF kind \in Good THEN [obj EXCEPT ![o] = [sigma |-> Tag, theta |-> Tag, inverse |-> Tag]] ELSE obj
SetSigma(o, kind) ==
  /\ obj[o] # Absent /\ Do("sigma", o, kind)
  /\ obj' = IF kind \in Good THEN [obj EXCEPT ![o].sigma = Tag, ![o].inverse = Tag] ELSE obj
SetTheta(o, kind) ==
  /\ obj[o] # Absent /\ Do("theta", o, kind)
  /\ obj' = IF kind \in Good THEN [obj EXCEPT ![o].theta = Tag] ELSE obj
Next == \E o \in Objects :
          \/ \E kind \in NewKinds : New(o, kind)
          \/ \E kind \in SetKinds : SetSigma(o, kind)
          \/ \E kind \in ThetaKinds : SetTheta(o, kind)
Spec == Init /\ [][Next]_vars
InverseInStep == \A o \in Objects : obj[o].inverse = obj[o].sigma
LastAccepted(o, ops) ==
  LET I == {i \in DOMAIN hist : hist[i].o = o /\ hist[i].op \in ops /\ hist[i].kind \in Good} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
LastWins == \A o \in Objects : /\ obj[o].sigma = LastAccepted(o, {"new", "sigma"})
                               /\ obj[o].theta = LastAccepted(o, {"new", "theta"})
Emit == (Len(hist) = Depth /\ hist[1].o = 1 /\ hist[1].kind \in Good) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
