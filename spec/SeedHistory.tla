---------------------------- MODULE SeedHistory ----------------------------
(***************************************************************************)
(* C16, the design. Every model object owns a stream of random numbers     *)
(* that is determined by its seed; what an operation draws depends on the  *)
(* seed and on how much this object has drawn before (its own history),    *)
(* not on other objects or on the global random state g.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objects, Depth
VARIABLES own, g, hist
vars == <<own, g, hist>>
Absent == <<"absent">>
Init == own = [o \in Objects |-> Absent] /\ g = 0 /\ hist = <<>>
Do(op, o) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, o |-> o])
New(o)  == Do("new", o) /\ own' = [own EXCEPT ![o] = <<>>] /\ UNCHANGED g
Path(o) == own[o] # Absent /\ Do("path", o) /\ own' = [own EXCEPT ![o] = Append(@, "path")] /\ UNCHANGED g
Obs(o)  == /\ own[o] # Absent /\ "path" \in {own[o][i] : i \in DOMAIN own[o]}
           /\ Do("obs", o) /\ own' = [own EXCEPT ![o] = Append(@, "obs")] /\ UNCHANGED g
Global  == Do("global", 0) /\ g' = g + 1 /\ UNCHANGED own
Next == Global \/ \E o \in Objects : New(o) \/ Path(o) \/ Obs(o)
Spec == Init /\ [][Next]_vars
(* Frame conditions: an operation on one object leaves the others and the  *)
(* global state alone.                                                     *)
Frame == [][LET e == hist'[Len(hist')] IN
             /\ \A o \in Objects : o # e.o => own'[o] = own[o]
             /\ (e.op # "global" => g' = g)]_vars
Useful(h) == \E i \in DOMAIN h : h[i].op \in {"path", "obs"}
Emit == (Len(hist) = Depth /\ hist[1].op # "global" /\ hist[1].o = 1 /\ Useful(hist)) =>
           PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
